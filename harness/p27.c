#include "zharn.h"
// Replication: a mirror sees every request the others executed, exactly; replaying it on another instance as
// a master reproduces the content; requests which come back to where they were first made are not executed again.
#ifndef WANT
#define WANT 6000
#endif
static char want[WANT]; static uint32_t wn;
static uint32_t iid; static int have_iid;
static uint32_t put_dec(char *o, uint64_t v) { char t[24]; int m = 0; uint32_t n = 0; do { t[m++] = (char) ('0' + v % 10); v /= 10; } while(v); while(m) o[n++] = t[--m]; return n; }
static void put(const void *p, uint32_t n) { if(wn + n > sizeof want) z_fail("harness-stream"); memcpy(want + wn, p, n); wn += n; }
static void put_n(char c, uint64_t v) { char t[32]; uint32_t n = 0; t[n++] = c; n += put_dec(t + n, v); t[n++] = '\r'; t[n++] = '\n'; put(t, n); }
static void put_bulk(const void *p, uint32_t n) { put_n('$', n); put(p, n); put("\r\n", 2); }
static const char *ns_of[CONN_MAX];
static uint32_t seen;      // of the stream of the mirror
static void expect(int c, int argc, const zarg_t *a, const char *ns, uint32_t owner) {
    (void) c;
    put_n('*', (uint64_t) argc + 3); put_n(':', (uint64_t) env.now_sec); put_bulk(ns, strlen(ns)); put_n(':', owner);
    for(int i = 0; i < argc; i++) put_bulk(a[i].p, a[i].n);
}
// reads the instance id from the first thing mirrored
static void learn(int m) {
    if(have_iid) return;
    const unsigned char *p = conns[m].tx; uint32_t n = conns[m].txlen, l = 0, i = 0;
    for(; i < n && l < 4; i++) if(p[i] == '\n') l++;      // *, :time, $len, name
    z_assert(i < n && p[i] == ':', "mirrored"); iid = 0;
    for(i++; i < n && p[i] >= '0' && p[i] <= '9'; i++) iid = iid * 10 + (p[i] - '0');
    z_assert(iid != 0, "instance-id"); have_iid = 1;
}
static void stream(int m) {
    z_assert(conns[m].txlen == wn && memcmp(conns[m].tx, want, wn) == 0, "mirrored-exactly"); z_cover("mirrored");
}
static int known(const zarg_t *a) { return a[0].n != 7 || memcmp(a[0].p, "UNKNOWN", 7) != 0; }
static int slow, mi = 3;
static int run(int c, int argc, const zarg_t *a) {
    const char *ns = ns_of[c];
    z_assert(zh_cmdv(c, argc, a), "daemon-alive");
    if(!slow) learn(mi); // a slow mirror is set up after the id is known
    if(argc == 2 && a[0].n == 6 && memcmp(a[0].p, "SELECT", 6) == 0 && zr_is("+OK\r\n")) ns = ns_of[c] = a[1].n == 1 ? "n" : "default";
    if(known(a) && c != mi) expect(c, argc, a, ns, iid);
    return 1;
}
#define RUN(c, ...) run((c), (int) (sizeof((zarg_t[]) { __VA_ARGS__ }) / sizeof(zarg_t)), (zarg_t[]) { __VA_ARGS__ })
static uint8_t key[2], val[3];
static void mirror(int c) { z_assert(CMD(c, S("MIRROR")) && zr_is("+Starting mirroring\r\n"), "mirror-ok"); conns[c].txlen = conns[c].txpos = 0; }

static void start(const char *data, const char *index) {
    int o = 0; if(data) { zh_opts[o++] = "--data"; zh_opts[o++] = data; zh_opts[o++] = "--index"; zh_opts[o++] = index; }
    zh_opts[o++] = "--mode"; zh_opts[o++] = "user"; zh_opts[o] = NULL;
    z_assert(zh_boot(), "daemon-starts"); for(int i = 0; i < 5; i++) { zh_connect(i); ns_of[i] = "default"; }
}
static void contents(void) {
    z_bytes(key, 2, "key"); z_assume(key[0] != key[1]); z_bytes(val, 3, "val");
}
static void step(void) {
    env.now_sec++;
    int c = (int) z_choice(2, "client"); const uint8_t *k = key + z_choice(2, "slot");
    switch(z_choice((uint32_t) z_param("kinds", 8), "op")) {
    case 0: RUN(c, S("SET"), B(k, 1), B(val, z_choice(2, "vlen") ? 3 : 0)); break;
    case 1: RUN(c, S("DEL"), B(k, 1)); break;
    case 2: RUN(c, S("SELECT"), S("n")); break;
    case 3: RUN(c, S("NSNEW"), S("m")); break;
    case 4: RUN(c, S("set"), B(k, 1), B(val + 1, 2)); break;
    case 5: RUN(c, S("SELECT"), S("default")); break;
    case 6: RUN(c, S("UNKNOWN"), B(k, 1)); break;
    default: RUN(c, S("GET"), B(k, 1)); break;
    }
}
// what the instance holds, as a reader sees it
static char view[3000]; static uint32_t vn;
static void look(int c, char *o, uint32_t *n, uint32_t max) {
    *n = 0;
    static const char *nss[] = { "default", "n", "m" };
    for(int i = 0; i < 3; i++) {
        z_assert(CMD(c, S("SELECT"), B(nss[i], strlen(nss[i]))), "daemon-alive");
        if(*n + zr.n > max) z_fail("harness-view"); memcpy(o + *n, zr.p, zr.n); *n += zr.n;
        if(!zr_is("+OK\r\n")) continue;
        for(int k = 0; k < 2; k++) {
            static const char *what[] = { "GET", "KEYTIME", "LENGTH" };
            for(int q = 0; q < 3; q++) { z_assert(CMD(c, B(what[q], strlen(what[q])), B(key + k, 1)), "daemon-alive"); if(*n + zr.n > max) z_fail("harness-view"); memcpy(o + *n, zr.p, zr.n); *n += zr.n; }
        }
        z_assert(CMD(c, S("DBSIZE")), "daemon-alive"); if(*n + zr.n > max) z_fail("harness-view"); memcpy(o + *n, zr.p, zr.n); *n += zr.n;
    }
    z_assert(CMD(c, S("SELECT"), S("default")), "daemon-alive");
}
// reads a mirror stream and replays it as a master, with the time of the original
typedef struct { const unsigned char *p; uint32_t n; } piece;
static uint32_t num(const unsigned char *s, uint32_t *i, uint32_t n) { uint32_t v = 0; for((*i)++; *i < n && s[*i] != '\r'; (*i)++) v = v * 10 + (s[*i] - '0'); *i += 2; return v; }
static int replay(int c, const unsigned char *s, uint32_t n, int dropped) {
    uint32_t i = 0; int done = 0;
    while(i < n) {
        uint32_t cnt = num(s, &i, n), ts = num(s, &i, n), l = num(s, &i, n); piece ns = { s + i, l }; i += l + 2;
        uint32_t owner = num(s, &i, n); piece a[6]; cnt -= 3; z_assert(cnt <= 6, "mirrored");
        for(uint32_t k = 0; k < cnt; k++) { l = num(s, &i, n); a[k].p = s + i; a[k].n = l; i += l + 2; }
        char own[12], t[12]; uint32_t on = put_dec(own, owner), tn = put_dec(t, ts);
        z_assert(CMD(c, S("SELECT"), B(ns.p, ns.n), B(own, on)), "daemon-alive");
        z_assert(dropped ? zr.n == 0 : zr_is("+OK\r\n"), dropped ? "own-request-dropped" : "master-selects");
        int is_set = a[0].n == 3 && (a[0].p[0] | 32) == 's' && (a[0].p[2] | 32) == 't' && cnt == 3;
        zarg_t v[8]; int m = 0; for(uint32_t k = 0; k < cnt; k++) v[m++] = B(a[k].p, a[k].n);
        if(is_set) v[m++] = B(t, tn);
        v[m++] = B(own, on);
        z_assert(zh_cmdv(c, m, v), "daemon-alive"); z_assert(dropped ? zr.n == 0 : zr.n > 0, dropped ? "own-request-dropped" : "master-answered");
        done++;
    }
    return done;
}
void zmain(void) {
    int what = z_param("what", 0), ops = z_param("ops", 2);
    env_reset(); zh_bits = 0;
    start(NULL, NULL); contents();
    z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    mirror(mi);
    if(what == 0 || what == 1) {
        RUN(0, S("PING"));
        if(what == 0) {
            // a second mirror and a slow one receive the same; what the mirror itself asks is not for it
            int two = (int) z_choice(2, "second"); if(two) { mirror(2); expect(0, 0, NULL, "", 0); wn = 0; conns[mi].txlen = conns[mi].txpos = 0; expect(2, 1, (zarg_t[]) { S("MIRROR") }, "default", iid);
                memcpy(conns[mi].tx, want, wn); conns[mi].txlen = wn; }
            if(z_choice(2, "slow")) { slow = 1; conns[mi].txlimit = 3; }
            uint32_t from = wn;
            for(int s = 0; s < ops; s++) step();
            uint8_t x[2]; z_bytes(x, 2, "arg");
            RUN(0, S("GET"), B(x, z_choice(3, "len"))); RUN(1, S("HISTORY"), S(""), B(x, 1));
            if(slow) { conns[mi].txlimit = -1; conns[mi].out_ready = 1; z_assert(zh_run(), "daemon-alive"); z_cover("slow"); }
            stream(mi);
            if(two) { z_assert(conns[2].txlen == wn - from && memcmp(conns[2].tx, want + from, wn - from) == 0, "second-mirrored-exactly"); z_cover("second"); }
            if(!slow) { uint32_t k = conns[mi].txlen; z_assert(CMD(mi, S("PING")) && zr.n >= 7, "mirror-client-served"); z_assert(memcmp(zr.p + zr.n - 7, "+PONG\r\n", 7) == 0 && conns[mi].txlen <= k + 7, "own-requests-not-mirrored"); }
        } else {
            for(int s = 0; s < ops; s++) step();
            stream(mi);
            static unsigned char first[6000], second[6000]; uint32_t fn = conns[mi].txlen, sn; memcpy(first, conns[mi].tx, fn);
            uint32_t id = iid; look(4, view, &vn, sizeof view);
            // another instance, later
            env.now_sec += 100; env.now_usec = 7777; wn = 0;
            start("/b/d", "/b/i"); z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
            mirror(mi); z_assert(CMD(0, S("MASTER")) && zr_is("+Hello, master\r\n"), "master-ok"); conns[mi].txlen = conns[mi].txpos = 0;
            int n = replay(0, first, fn, 0); z_cover("replayed"); sn = conns[mi].txlen; memcpy(second, conns[mi].tx, sn);
            static char other[3000]; uint32_t on; look(4, other, &on, sizeof other);
            z_assert(on == vn && memcmp(other, view, vn) == 0, "same-content");
            // what that one mirrors carries the original owner: back at the first, it is not executed again
            char o1[16]; uint32_t l = put_dec(o1 + 1, id) + 1; o1[0] = ':'; int k = 0;
            for(uint32_t i = 0; i + l < sn; i++) if(memcmp(second + i, o1, l) == 0 && second[i + l] == '\r') k++;
            z_assert(k >= 2 * n, "owner-is-kept");
            env.now_sec += 100; env.now_usec = 0; start(NULL, NULL);
            mirror(mi); z_assert(CMD(0, S("MASTER")) && zr_is("+Hello, master\r\n"), "master-ok"); conns[mi].txlen = conns[mi].txpos = 0;
            replay(0, second, sn, 1); z_assert(conns[mi].txlen == 0, "dropped-is-not-mirrored"); z_cover("returned");
            look(4, other, &on, sizeof other); z_assert(on == vn && memcmp(other, view, vn) == 0, "own-request-not-executed");
        }
    } else if(what == 4) { // requests of every size, the mirror reading at its own pace
        RUN(0, S("PING"));
        static unsigned char v[70000]; static const uint32_t sizes[] = { 200, 1000, 8100, 8190, 8192, 8193, 16390, 65535, 65536, 70000 };
        uint32_t n = sizes[z_choice(10, "size")], at = z_choice(3, "at");
        for(uint32_t i = 0; i < n; i++) v[i] = (unsigned char) (i * 7 + (i >> 8));
        z_bytes(v + (at == 0 ? 0 : at == 1 ? n / 2 : n - 3), 3, "bytes");
        if(z_choice(2, "slow")) { slow = 1; conns[mi].txlimit = 3; z_cover("slow"); }
        RUN(0, S("SET"), B(key, 1), B(v, n)); RUN(1, S("GET"), B(key, 1)); RUN(0, S("SELECT"), S("n")); RUN(0, S("SET"), B(key + 1, 1), B(v, n)); RUN(1, S("PING"));
        if(slow) for(int i = 0; i < 64 && conns[mi].txlen < wn; i++) { conns[mi].txlimit = 4096; conns[mi].out_ready = 1; z_assert(zh_run(), "daemon-alive"); }
        stream(mi);
    } else if(what == 2) { // any owner: only its own number is refused
        RUN(0, S("PING"));
        z_assert(CMD(0, S("MASTER")) && zr_is("+Hello, master\r\n"), "master-ok");
        char o[12]; uint32_t d = z_choice(10, "digits") + 1; uint64_t v = 0;
        for(uint32_t i = 0; i < d; i++) { o[i] = (char) z_u8("owner"); z_assume(o[i] >= '0' && o[i] <= '9'); v = v * 10 + (uint64_t) (o[i] - '0'); }
        z_assume(v != 0 && v <= 0xffffffffull);
        conns[mi].txlen = conns[mi].txpos = 0;
        z_assert(CMD(0, S("SET"), B(key, 1), B(val, 3), B(o, d)), "daemon-alive");
        if(v == iid) { z_assert(zr.n == 0, "own-request-dropped"); z_assert(conns[mi].txlen == 0, "dropped-is-not-mirrored"); z_cover("own"); z_assert(CMD(1, S("GET"), B(key, 1)) && zr_nil() && zr_end(), "own-request-not-executed"); }
        else {
            z_assert(zr_bulk_is(key, 1) && zr_end(), "set-ok"); z_cover("foreign"); z_assert(CMD(1, S("GET"), B(key, 1)) && zr_bulk_is(val, 3) && zr_end(), "executed");
            z_assert(conns[mi].txlen > 20, "mirrored");
        }
        // the connection works on
        z_assert(CMD(0, S("DEL"), B(key + 1, 1), S("999")) && zr_error(), "master-continues");
    } else { // rights: only an administrator mirrors, replicates, and sees the passwords
        zh_opts[0] = "--admin"; zh_opts[1] = "root"; zh_opts[2] = NULL; z_assert(zh_boot(), "daemon-starts"); for(int i = 0; i < 5; i++) zh_connect(i);
        int auth = (int) z_choice(2, "auth");
        if(auth) z_assert(CMD(0, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
        z_assert(CMD(1, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
        z_assert(CMD(1, S("NSSET"), S("n"), S("password"), S("secret")) && zr_is("+OK\r\n"), "password-ok");
        int k = (int) z_choice(2, "what");
        z_assert(k ? CMD(0, S("MIRROR")) : CMD(0, S("MASTER")), "daemon-alive"); z_assert(auth ? zr.p[0] == '+' : zr_error(), "administrators-only");
        z_assert(CMD(1, S("SET"), B(key, 1), B(val, 3)) && zr_bulk_is(key, 1), "set-ok");
        zr_take(0);
        z_assert((zr.n > 0) == (auth && k), "mirrored-to-administrators-only");
        if(!k) {
            z_assert(auth ? CMD(0, S("NSINFO"), S("n"), S("999")) : CMD(0, S("NSINFO"), S("n")), "daemon-alive"); int f = 0; for(uint32_t i = 0; i + 6 <= zr.n; i++) if(memcmp(zr.p + i, "secret", 6) == 0) f++;
            z_assert(auth ? f == 1 : f == 0, "password-for-masters-only"); z_cover(auth ? "master" : "ordinary");
            z_assert(CMD(1, S("NSINFO"), S("n")), "daemon-alive"); f = 0; for(uint32_t i = 0; i + 6 <= zr.n; i++) if(memcmp(zr.p + i, "secret", 6) == 0) f++;
            z_assert(f == 0, "password-for-masters-only");
        }
    }
    z_cover("end");
}
