#include "zharn.h"
// A connection is a stream of requests: what they do and the order of their replies depend on the bytes
// only, not on how they arrive; a malformed stream gets one error and is closed, nothing else is harmed.
#define MAXREQ 6
typedef struct { int argc; uint32_t off[4], len[4]; } req_t;
typedef struct { int n; req_t r[MAXREQ]; int bad; } parsed_t;
static unsigned char st[24000]; static uint32_t sn;
static void put(const void *p, uint32_t n) { if(sn + n > sizeof st) z_fail("harness-stream"); memcpy(st + sn, p, n); sn += n; }
static void puts_(const char *s) { put(s, strlen(s)); }
// number at st[from..to): -1 none, else its value (capped)
static int64_t number(uint32_t from, uint32_t to) {
    int64_t v = -1;
    for(uint32_t i = from; i < to && st[i] >= '0' && st[i] <= '9'; i++) { if(v < 0) v = 0; if(v < 1000000000) v = v * 10 + (st[i] - '0'); }
    return v;
}
static int line(uint32_t from, uint32_t *nl) { for(uint32_t i = from; i < sn; i++) if(st[i] == '\n') { *nl = i; return 1; } return 0; }
static void parse(parsed_t *o) {
    uint32_t at = 0, nl; o->n = 0; o->bad = 0;
    while(at < sn) {
        if(!line(at, &nl)) { o->bad = sn - at >= 8192; return; }
        if(st[at] != '*') { o->bad = 2; return; }
        int64_t argc = number(at + 1, nl);
        if(argc < 1 || argc > 1024) { o->bad = 2; return; }
        argc = (int64_t) z_concretize((uint64_t) argc);
        req_t *r = &o->r[o->n]; r->argc = (int) argc; at = nl + 1;
        for(int i = 0; i < argc; i++) {
            if(at >= sn) return;
            if(!line(at, &nl)) { o->bad = sn - at >= 8192; return; }
            if(st[at] != '$') { o->bad = 2; return; }
            int64_t len = number(at + 1, nl);
            if(len < 0 || len > 8 * 1024 * 1024) { o->bad = 2; return; }
            len = (int64_t) z_concretize((uint64_t) len);
            at = nl + 1;
            if(at + len + 2 > sn) return;
            if(i < 4) { r->off[i] = at; r->len[i] = (uint32_t) len; }
            at += (uint32_t) len + 2;
        }
        o->n++;
        if(o->n == MAXREQ) z_fail("harness-requests");
    }
}
static int word(req_t *r, const char *w) {
    uint32_t n = strlen(w); if(r->len[0] != n) return 0;
    for(uint32_t i = 0; i < n; i++) { unsigned char c = st[r->off[0] + i]; if(c >= 'a' && c <= 'z') c -= 32; if(c != (unsigned char) w[i]) return 0; }
    return 1;
}
// a store of one-version keys
static struct { uint32_t ko, kn, vo, vn; int live; } kv[MAXREQ]; static int nkv;
static int find(uint32_t o, uint32_t n) { for(int i = 0; i < nkv; i++) if(kv[i].kn == n && memcmp(st + kv[i].ko, st + o, n) == 0) return i; return -1; }
static int error_line(void) {
    if(zr.at >= zr.n || zr.p[zr.at] != '-') return 0;
    for(uint32_t i = zr.at; i + 1 < zr.n; i++) if(zr.p[i] == '\r') { if(zr.p[i + 1] != '\n') return 0; zr.at = i + 2; return 1; }
    return 0;
}
static void reply(req_t *r) {
    if(word(r, "PING")) { z_assert(zr_status("PONG"), "ping-answered"); return; }
    if(word(r, "GET") && r->argc == 2 && r->len[1] > 0) {
        int k = r->len[1] < 256 ? find(r->off[1], r->len[1]) : -1;
        if(k < 0 || !kv[k].live) z_assert(zr_nil(), "get-answered"); else z_assert(zr_bulk_is(st + kv[k].vo, kv[k].vn), "get-answered");
        return;
    }
    if(word(r, "SET") && r->argc == 3 && r->len[1] > 0 && r->len[1] < 256) {
        int k = find(r->off[1], r->len[1]);
        if(k >= 0 && kv[k].live && kv[k].vn == r->len[2] && memcmp(st + kv[k].vo, st + r->off[2], r->len[2]) == 0) { z_assert(zr_nil(), "set-answered"); return; }
        z_assert(zr_bulk_is(st + r->off[1], r->len[1]), "set-answered");
        if(k < 0) { k = nkv++; kv[k].ko = r->off[1]; kv[k].kn = r->len[1]; }
        kv[k].vo = r->off[2]; kv[k].vn = r->len[2]; kv[k].live = 1;
        return;
    }
    if(word(r, "DEL") && r->argc == 2 && r->len[1] > 0 && r->len[1] < 256) {
        int k = find(r->off[1], r->len[1]);
        if(k < 0 || !kv[k].live) z_assert(error_line(), "del-answered"); else { z_assert(zr_status("OK"), "del-answered"); kv[k].live = 0; }
        return;
    }
    z_assert(error_line(), "refused-with-one-error");
}
static void check(int c) {
    static parsed_t p; parse(&p);
    zr_take(c);
    for(int i = 0; i < p.n; i++) reply(&p.r[i]);
    if(p.bad) {
        if(p.bad == 2) { z_assert(error_line(), "malformed-is-reported"); z_cover("malformed"); }
        z_assert(conns[c].closed, "malformed-is-closed");
    } else { z_assert(!conns[c].closed, "stays-connected"); z_cover("well-formed"); if(p.n == 0) z_cover("nothing-yet"); }
    z_assert(zr_end(), "no-other-reply");
}
static void deliver(int c, uint32_t from, uint32_t to) { if(to > from) { zh_feed(c, st + from, to - from); z_assert(zh_run(), "daemon-alive"); } }
static void bystander(void) {
    z_assert(CMD(5, S("GET"), S("other")) && zr_is("$4\r\nkept\r\n"), "others-not-disturbed");
    zh_connect(4);
    z_assert(CMD(4, S("PING")) && zr_is("+PONG\r\n"), "new-clients-served");
}
void zmain(void) {
    int what = z_param("what", 0);
    env_reset(); zh_opts[0] = NULL; z_assert(zh_boot(), "daemon-starts");
    zh_connect(5); z_assert(CMD(5, S("SET"), S("other"), S("kept")) && zr_is("$5\r\nother\r\n"), "set-ok");
    zh_connect(0);
    if(what == 0) { // well-formed requests, cut anywhere
        uint8_t v[3]; z_bytes(v, 3, "v");
        puts_("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$3\r\n"); put(v, 3); puts_("\r\n*2\r\n$3\r\nGET\r\n$1\r\nk\r\n*2\r\n$3\r\nNOP\r\n$0\r\n\r\n*2\r\n$3\r\ndel\r\n$1\r\nk\r\n*1\r\n$4\r\nPING\r\n");
        uint32_t how = z_choice(4, "how");
        if(how == 0) { uint32_t p = z_choice(sn + 1, "cut"); deliver(0, 0, p); deliver(0, p, sn); }
        if(how == 1) for(uint32_t i = 0; i < sn; i++) deliver(0, i, i + 1);
        if(how == 2) { conns[0].rxchunk = 1 + z_choice(9, "chunk"); deliver(0, 0, sn); }
        if(how == 3) { // another client's requests arrive in between, also in parts
            uint32_t p = z_choice(sn + 1, "cut"); zh_connect(1);
            const char *o = "*2\r\n$3\r\nGET\r\n$5\r\nother\r\n"; uint32_t on = strlen(o), q = p % (on + 1);
            deliver(0, 0, p); zh_feed(1, o, q); z_assert(zh_run(), "daemon-alive"); zh_feed(1, o + q, on - q); zh_feed(0, st + p, sn - p); z_assert(zh_run(), "daemon-alive");
            zr_take(1); z_assert(zr_is("$4\r\nkept\r\n"), "other-client-answered"); z_cover("interleaved");
        }
        check(0);
    }
    if(what == 1) { // two arbitrary bytes anywhere in the stream
        puts_("*2\r\n$3\r\nGET\r\n$1\r\nk\r\n*1\r\n$4\r\nPING\r\n");
        uint32_t w = z_param("width", 2), p = z_choice(sn - w + 1, "window"); z_bytes(st + p, w, "bytes");
        if(z_param("whole", 0) || z_choice(2, "how") == 0) deliver(0, 0, sn);
        else { for(uint32_t i = 0; i < sn; i++) { if(conns[0].closed) break; deliver(0, i, i + 1); } z_cover("bytewise"); }
        check(0);
    }
    if(what == 2) { // numbers of every size and form
        static const char *num[] = { "0", "-1", "-2", "-3", "", " 1", "+1", "1x", "01", "1025", "1024", "8388609", "2147483646", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967297", "18446744073709551617", "99999999999999999999999999" };
        uint32_t k = z_choice(sizeof num / sizeof num[0], "number"), place = z_choice(3, "place");
        uint8_t x = z_u8("x");
        if(place == 0) { puts_("*"); puts_(num[k]); puts_("\r\n$4\r\nPING\r\n"); }
        if(place == 1) { puts_("*1\r\n$"); puts_(num[k]); puts_("\r\nPING\r\n"); }
        if(place == 2) { puts_("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$"); puts_(num[k]); puts_("\r\n"); put(&x, 1); puts_("\r\n*2\r\n$3\r\nGET\r\n$1\r\nk\r\n"); z_cover("value"); }
        if(z_choice(2, "how") == 0) deliver(0, 0, sn); else for(uint32_t i = 0; i < sn && !conns[0].closed; i++) deliver(0, i, i + 1);
        check(0);
    }
    if(what == 3) { // requests which end around the size of the daemon's buffer
        uint32_t size = 8192 - 46 + z_choice(52, "end"), len = size - 23; uint8_t v = z_u8("v"); char h[24];
        memset(h, 0, sizeof h); sprintf(h, "*2\r\n$4\r\nPING\r\n$%u\r\n", len); puts_(h); for(uint32_t i = 0; i < len; i++) st[sn + i] = 'x';
        sn += len; puts_("\r\n"); if(sn != size) z_fail("harness-size");
        puts_("*3\r\n$3\r\nSET\r\n$1\r\nk\r\n$1\r\n"); put(&v, 1); puts_("\r\n*2\r\n$3\r\nGET\r\n$1\r\nk\r\n");
        uint32_t how = z_choice(3, "how");
        if(how == 0) deliver(0, 0, sn);
        if(how == 1) { deliver(0, 0, 5000); deliver(0, 5000, sn); }
        if(how == 2) { deliver(0, 0, 14); deliver(0, 14, sn); }
        check(0);
    }
    if(what == 4) { // endless lines
        uint32_t n = 8189 + z_choice(6, "n"), place = z_choice(3, "place");
        if(place == 0) puts_("*"); if(place == 1) puts_("*2\r\n$3\r\nGET\r\n$"); if(place == 2) puts_("*1\r\n$4\r\nPING\r\n*");
        uint32_t b = place == 0 ? 0 : place == 1 ? 13 : 14;
        while(sn < b + n) st[sn++] = '1';
        deliver(0, 0, sn);
        check(0);
        if(!conns[0].closed) { conns[0].hup = 1; conns[0].in_ready = 1; z_assert(zh_run(), "daemon-alive"); z_assert(conns[0].closed, "hangup-is-noticed"); z_cover("hangup"); }
    }
    if(what == 5) { // the client sends its requests and stops sending
        puts_("*2\r\n$3\r\nGET\r\n$5\r\nother\r\n*1\r\n$4\r\nPING\r\n"); uint32_t full = sn; sn = z_choice(sn + 1, "cut");
        (void) full; memcpy(conns[0].rx, st, sn); conns[0].rxlen = sn; conns[0].rxpos = 0; conns[0].hup = 1; conns[0].in_ready = 1; z_assert(zh_run(), "daemon-alive");
        static parsed_t p; parse(&p); zr_take(0);
        for(int i = 0; i < p.n; i++) { if(word(&p.r[i], "GET")) z_assert(zr_is("$4\r\nkept\r\n") || zr_bulk_is("kept", 4), "answered-before-leaving"); else z_assert(zr.n > 7 && memcmp(zr.p + zr.n - 7, "+PONG\r\n", 7) == 0, "answered-before-leaving"); }
        z_assert(conns[0].closed, "hangup-is-noticed"); if(p.n == 2) z_cover("answered");
    }
    bystander();
    z_cover("end");
}
