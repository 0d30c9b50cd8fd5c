#include "zharn.h"
// Sessions are separate: what one connection selected, may do and has sent so far concerns it alone.
enum { DEFAULT, OPEN, SHUT, NNS };
static const char *names[NNS] = { "default", "n", "p" };
#define MAXC 4
static int slot[MAXC];                                     // connection number of client i: one makes the server's table of clients grow
typedef struct { int on, ns, rw, admin, half, wait, stuck; } session_t;
static session_t s[MAXC];
static int nc, cap;
static unsigned char mark[NNS];
static int OP;                                             // the administrator who prepares

static void fresh(int i) { memset(&s[i], 0, sizeof s[i]); s[i].on = 1; s[i].rw = !z_param("protect", 0); }
static void probe(int i) {
    int c = slot[i];
    if(!s[i].on || s[i].half || s[i].wait || s[i].stuck) return;
    z_assert(CMD(c, S("GET"), S("me")) && zr_bulk_is(&mark[s[i].ns], 1) && zr_end(), "own-namespace");
    z_assert(CMD(c, S("SET"), S("me"), B(&mark[s[i].ns], 1)), "alive");
    z_assert(s[i].rw ? zr_nil() && zr_end() : zr_error(), "own-right-to-write");
    z_assert(CMD(c, S("HOOKS")), "alive");
    int64_t n; z_assert(s[i].admin ? zr_array(&n) && n == 0 : zr_error(), "own-administrator-rights");
}
static void silent(int but) {       // nobody else hears anything
    for(int i = 0; i < nc; i++) if(i != but && s[i].on) { conn_t *k = &conns[slot[i]]; z_assert(k->txpos == k->txlen && !k->closed, "nothing-sent-to-others"); }
}
static void step(int i) {
    int c = slot[i]; conn_t *k = &conns[c];
    if(!s[i].on) { zh_connect(c); fresh(i); z_cover("connected"); return; }
    if(s[i].half) {
        if(z_choice(2, "complete")) {
            zh_feed(c, "2\r\nme\r\n", 7); z_assert(zh_run(), "alive"); zr_take(c);
            z_assert(zr_bulk_is(&mark[s[i].ns], 1) && zr_end(), "request-in-two-parts"); s[i].half = 0; z_cover("completed"); return;
        }
    } else if(s[i].stuck) {
        if(z_choice(2, "reads-again")) {
            k->txlimit = -1; k->out_ready = 1; z_assert(zh_run(), "alive"); zr_take(c);
            z_assert(zr_bulk_is(&mark[s[i].ns], 1) && zr_end(), "own-reply"); s[i].stuck = 0; z_cover("read-again"); return;
        }
    } else if(s[i].wait) {
        if(z_choice(2, "until-the-end")) { // nothing happened there: the time passes
            env.now_sec += 6; z_assert(zh_idle() && zh_run(), "alive"); zr_take(c); z_assert(zr_error(), "wait-ends"); s[i].wait = 0; z_cover("waited"); return;
        }
    } else {
        uint32_t what = z_choice(9, "what");
        if(what == 0) { int n = (int) z_choice(2, "open"); z_assert(CMD(c, S("SELECT"), B(names[n], strlen(names[n]))) && zr_is("+OK\r\n"), "select-ok"); s[i].ns = n; s[i].rw = n == OPEN || !z_param("protect", 0); z_cover("selected"); return; }
        if(what == 1) { z_assert(CMD(c, S("SELECT"), S("p"), S("pw")) && zr_is("+OK\r\n"), "select-ok"); s[i].ns = SHUT; s[i].rw = 1; z_cover("selected-with-password"); return; }
        if(what == 2) { z_assert(CMD(c, S("SELECT"), S("p")) && zr_is("+OK\r\n"), "select-ok"); s[i].ns = SHUT; s[i].rw = 0; z_cover("selected-read-only"); return; }
        if(what == 3) { z_assert(z_choice(2, "wrong") ? CMD(c, S("SELECT"), S("p"), S("wp")) : CMD(c, S("SELECT"), S("x")), "alive"); z_assert(zr_error(), "select-refused"); return; }
        if(what == 4) { int ok = (int) z_choice(2, "right"); z_assert(CMD(c, S("AUTH"), B(ok ? "root" : "Root", 4)), "alive"); if(ok) { z_assert(zr_is("+OK\r\n"), "auth-ok"); s[i].admin = 1; } else z_assert(zr_error(), "auth-refused"); z_cover("auth"); return; }
        if(what == 5) { zh_feed(c, "*2\r\n$3\r\nGET\r\n$", 14); z_assert(zh_run(), "alive"); s[i].half = 1; z_cover("half"); return; }
        if(what == 6) { k->txlimit = 0; zarg_t a[2] = { S("GET"), S("me") }; zh_feed_cmd(c, 2, a); z_assert(zh_run(), "alive"); s[i].stuck = 1; z_cover("stuck"); return; }
        if(what == 7) { z_assume(s[i].ns != DEFAULT); zarg_t a[2] = { S("WAIT"), S("DEL") }; zh_feed_cmd(c, 2, a); z_assert(zh_run(), "alive"); s[i].wait = 1; z_cover("waiting"); return; }
    }
    // leaves, in whatever it was
    k->hup = 1; k->in_ready = 1; z_assert(zh_run(), "alive"); s[i].on = 0; z_cover("left");
}
void zmain(void) {
    env_reset();
    nc = z_param("clients", 3); cap = z_param("steps", 4);
    int o = 0; zh_opts[o++] = "--admin"; zh_opts[o++] = "root";
    if(z_param("protect", 0)) zh_opts[o++] = "--protect";
    z_assert(zh_boot(), "daemon-starts");
    OP = CONN_MAX - 1; zh_connect(OP);
    z_assert(CMD(OP, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok");
    z_bytes(mark, NNS, "marks");
    for(int n = 0; n < NNS; n++) {
        if(n) z_assert(CMD(OP, S("NSNEW"), B(names[n], 1)) && zr_is("+OK\r\n"), "nsnew-ok");
        z_assert((n ? CMD(OP, S("SELECT"), B(names[n], 1)) : CMD(OP, S("SELECT"), S("default"), S("root"))) && zr_is("+OK\r\n"), "select-ok");
        z_assert(CMD(OP, S("SET"), S("me"), B(&mark[n], 1)) && zr_bulk_is("me", 2), "set-ok");
    }
    z_assert(CMD(OP, S("NSSET"), S("p"), S("password"), S("pw")) && zr_is("+OK\r\n"), "nsset-ok");
    conns[OP].hup = 1; conns[OP].in_ready = 1; z_assert(zh_run(), "alive");
    int far = (int) z_choice(2, "far-first");
    for(int i = 0; i < nc; i++) slot[i] = i;
    slot[far ? 0 : nc - 1] = CONN_MAX - 2;
    if(far) for(int i = 1; i < nc; i++) slot[i] = i;
    zh_connect(slot[0]); fresh(0); zh_connect(slot[1]); fresh(1);
    for(int t = 0; t < cap; t++) {
        int i = (int) z_choice((uint32_t) nc, "who");
        step(i); silent(s[i].on ? i : -1);
        probe(i);
    }
    // everybody, in the end
    for(int i = 0; i < nc; i++) probe(i);
    z_cover("end");
}
