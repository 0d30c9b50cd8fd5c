#include "zharn.h"
// A client which reads slowly gets every reply, complete and in order, whatever amounts its connection
// accepts at a time; meanwhile the others are served, and when it leaves nothing of it remains.
#ifndef VALMAX
#define VALMAX 600
#endif
static uint8_t val[VALMAX]; static uint32_t vn;
static void ask(int c, uint32_t k) {
    zarg_t a[3]; int n = 1;
    switch(k) {
    case 0: a[0] = S("GET"); a[1] = S("k"); n = 2; break;
    case 1: a[0] = S("PING"); break;
    case 2: a[0] = S("SCAN"); break;
    case 3: a[0] = S("GET"); a[1] = S("absent"); n = 2; break;
    case 4: a[0] = S("KSCAN"); a[1] = S("k"); n = 2; break;
    case 5: a[0] = S("MGET"); a[1] = S("k"); a[2] = S("absent"); n = 3; break;
    case 6: a[0] = S("NSINFO"); a[1] = S("default"); n = 2; break;
    default: a[0] = S("NOTHING"); break;
    }
    zh_feed_cmd(c, n, a);
    z_assert(zh_run(), "daemon-alive");
}
static void same(int prefix) {
    uint32_t n = conns[0].txlen;
    z_assert(n <= conns[1].txlen && memcmp(conns[0].tx, conns[1].tx, n) == 0, "replies-in-order");
    if(!prefix) z_assert(n == conns[1].txlen, "replies-complete");
}
static void window(int n) { conns[0].txlimit = n; conns[0].out_ready = 1; z_assert(zh_run(), "daemon-alive"); same(1); }
void zmain(void) {
    int ops = z_param("ops", 3), big = z_param("big", 0);
    env_reset(); zh_opts[0] = NULL; z_assert(zh_boot(), "daemon-starts");
    zh_connect(0); zh_connect(1); zh_connect(2);
    int huge = big == 2; vn = huge ? VALMAX : big ? 600 : 3; for(uint32_t i = 0; i < sizeof val; i++) val[i] = huge ? (uint8_t) (i + (i >> 8)) : 'y'; z_bytes(val, 3, "v"); val[vn - 1] = z_u8("last");
    z_assert(CMD(2, S("SET"), S("k"), B(val, vn)) && zr_is("$1\r\nk\r\n"), "set-ok");
    static const int first[] = { 0, 1, 4, 5, 9, 40 };
    conns[0].txlimit = first[z_choice(z_param("firsts", 6), "accepts")];
    for(int i = 0; i < ops; i++) {
        uint32_t k = z_choice(8, "command");
        if(z_param("pair", 0) && i == 0) k = z_choice(2, "x") ? 1 : 0;
        ask(1, k); ask(0, k); same(1);
        if(i + 1 < ops) { uint32_t w = z_choice(3, "meanwhile"); if(w == 1) window(1); if(w == 2) window(7); }
    }
    if(conns[0].txlen < conns[1].txlen) z_cover("pending");
    z_assert(CMD(2, S("GET"), S("k")) && zr_bulk_is(val, vn) && zr_end(), "others-served");
    uint32_t end = huge ? 1 + z_choice(4, "end") : z_choice(5, "end");
    if(end == 0) { for(int i = 0; i < 2000 && conns[0].txlen < conns[1].txlen; i++) window(1); z_cover("byte-by-byte"); }
    if(end == 1) { static const uint32_t hs[] = { 4000, 16384, 32767, 65535, 65536, 65537 }; uint32_t s = huge ? hs[z_choice(6, "step")] : 2 + z_choice(20, "step"); for(int i = 0; i < 2000 && conns[0].txlen < conns[1].txlen; i++) window((int) s); }
    if(end == 2) window(-1);
    if(end == 3) { // the reply to the next request waits for its turn, a notification too
        conns[0].txlimit = 0;
        z_assert(CMD(0, S("WAIT"), S("DEL")), "daemon-alive"); z_assert(CMD(2, S("DEL"), S("k")) && zr_is("+OK\r\n"), "del-ok");
        memcpy(conns[1].tx + conns[1].txlen, "+DEL\r\n", 6); conns[1].txlen += 6;
        same(1); window(3); window(-1); z_cover("notified");
    }
    if(end == 4) { // it leaves instead, with replies pending
        conns[0].hup = 1 + (int) z_choice(2, "gone"); uint32_t had = conns[0].txlen;
        if(conns[0].hup == 2) { conns[0].out_ready = 1; z_assert(zh_run(), "daemon-alive"); conns[0].hup = 1; }
        conns[0].in_ready = 1; z_assert(zh_run(), "daemon-alive");
        z_assert(conns[0].closed && conns[0].txlen == had, "left");
        zh_connect(0); z_assert(conns[0].txlen == 0, "nothing-left-of-the-previous-client");
        z_assert(CMD(0, S("PING")) && zr_is("+PONG\r\n"), "new-client-served"); z_cover("gone");
        z_cover("end"); return;
    }
    same(0);
    conns[0].txpos = conns[0].txlen;
    conns[0].txlimit = -1; z_assert(CMD(0, S("PING")) && zr_is("+PONG\r\n"), "goes-on");
    z_cover("end");
}
