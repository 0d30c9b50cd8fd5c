#include <getopt.h>
#include "zharn.h"

int index_set_buckets_bits(uint8_t bits);
const char *zh_opts[16];
int zh_bits = 1;
zreply_t zr;
static char *zh_argv[32];
static int zh_argc;

static void zh_main(void) {
    env.exit_code = zdbd_main(zh_argc, zh_argv);
    env.finished = 1;
}

int zh_alive(void) { return !env.crashed && !env.finished && !env.exited; }

static int boot_crash = -1;
void zh_boot_crash(int at) { boot_crash = at; }
int zh_boot(void) {
    z_reset_globals();
    env_new_process();
    if(boot_crash >= 0) { env.crash_at = (int) env.writes + boot_crash; env.crash_keep = 100000; }
    zh_argc = 0;
    zh_argv[zh_argc++] = "zdb"; zh_argv[zh_argc++] = "--data"; zh_argv[zh_argc++] = "/db/d"; zh_argv[zh_argc++] = "--index"; zh_argv[zh_argc++] = "/db/i";
    for(int i = 0; i < 16 && zh_opts[i]; i++) zh_argv[zh_argc++] = (char *) zh_opts[i];
    zh_argv[zh_argc] = NULL;
    optind = 1;
    index_set_buckets_bits(zh_bits);
    z_coro_start(zh_main);
    env.in_coro = 1; z_coro_resume(); env.in_coro = 0;
    return zh_alive();
}

int zh_run(void) {
    if(!zh_alive()) return 0;
    for(int k = 0; k < 64; k++) {
        int any = 0;
        for(int i = 0; i < CONN_MAX; i++) if(conns[i].pending || conns[i].in_ready || conns[i].out_ready) any = 1;
        if(!any) return 1;
        env.in_coro = 1; z_coro_resume(); env.in_coro = 0;
        if(!zh_alive()) return 0;
    }
    z_fail("model:event-loop-bound");
    return 0;
}
int zh_idle(void) {
    if(!zh_alive()) return 0;
    env.in_coro = 1; z_coro_resume(); env.in_coro = 0;
    return zh_alive();
}
int zh_stop(void) { env_close_all(); return 1; }

void zh_connect(int c) {
    conn_t *n = &conns[c];
    n->pending = 1; n->closed = 0; n->hup = 0; n->rxlen = n->rxpos = n->txlen = n->txpos = 0; n->txlimit = -1;
    zh_run();
}
void zh_feed(int c, const void *p, uint32_t n) {
    conn_t *k = &conns[c];
    if(k->rxpos == k->rxlen) k->rxpos = k->rxlen = 0;
    if(k->rxlen + n > sizeof(k->rx)) z_fail("model:receive-buffer-exhausted");
    memcpy(k->rx + k->rxlen, p, n); k->rxlen += n; k->in_ready = 1;
}
static uint32_t dec(char *o, uint32_t v) { char t[12]; int m = 0; uint32_t n = 0; do { t[m++] = '0' + v % 10; v /= 10; } while(v); while(m) o[n++] = t[--m]; return n; }
void zh_feed_cmd(int c, int argc, const zarg_t *argv) {
    char h[32]; uint32_t n = 0;
    h[n++] = '*'; n += dec(h + n, argc); h[n++] = '\r'; h[n++] = '\n';
    zh_feed(c, h, n);
    for(int i = 0; i < argc; i++) {
        n = 0; h[n++] = '$'; n += dec(h + n, argv[i].n); h[n++] = '\r'; h[n++] = '\n';
        zh_feed(c, h, n);
        if(argv[i].n) zh_feed(c, argv[i].p, argv[i].n);
        zh_feed(c, "\r\n", 2);
    }
}
int zh_cmdv(int c, int argc, const zarg_t *argv) {
    conn_t *k = &conns[c];
    if(k->txpos == k->txlen) k->txpos = k->txlen = 0;
    zh_feed_cmd(c, argc, argv);
    int r = zh_run();
    zr_take(c);
    return r;
}

void zr_take(int c) { conn_t *k = &conns[c]; zr.p = k->tx + k->txpos; zr.n = k->txlen - k->txpos; zr.at = 0; k->txpos = k->txlen; }
int zr_is(const char *raw) { uint32_t n = strlen(raw); return zr.n == n && memcmp(zr.p, raw, n) == 0; }
int zr_error(void) { return zr.n >= 4 && zr.p[0] == '-' && zr.p[zr.n - 2] == '\r' && zr.p[zr.n - 1] == '\n'; }
static int num(int64_t *v) {
    uint32_t i = zr.at + 1; int neg = 0, any = 0; uint64_t r = 0;
    if(i < zr.n && zr.p[i] == '-') { neg = 1; i++; }
    for(; i < zr.n && zr.p[i] >= '0' && zr.p[i] <= '9'; i++) { r = r * 10 + (zr.p[i] - '0'); any = 1; }
    if(!any || i + 1 >= zr.n || zr.p[i] != '\r' || zr.p[i + 1] != '\n') return 0;
    *v = neg ? -(int64_t) r : (int64_t) r; zr.at = i + 2;
    return 1;
}
int zr_bulk(const unsigned char **p, uint32_t *n) {
    int64_t v; uint32_t keep = zr.at;
    if(zr.at >= zr.n || zr.p[zr.at] != '$' || !num(&v) || v < 0 || zr.at + v + 2 > zr.n) { zr.at = keep; return 0; }
    *p = zr.p + zr.at; *n = (uint32_t) v; zr.at += v;
    if(zr.p[zr.at] != '\r' || zr.p[zr.at + 1] != '\n') { zr.at = keep; return 0; }
    zr.at += 2; return 1;
}
int zr_nil(void) { if(zr.at + 5 > zr.n || memcmp(zr.p + zr.at, "$-1\r\n", 5)) return 0; zr.at += 5; return 1; }
int zr_int(int64_t *v) { uint32_t keep = zr.at; if(zr.at >= zr.n || zr.p[zr.at] != ':' || !num(v)) { zr.at = keep; return 0; } return 1; }
int zr_array(int64_t *v) { uint32_t keep = zr.at; if(zr.at >= zr.n || zr.p[zr.at] != '*' || !num(v)) { zr.at = keep; return 0; } return 1; }
int zr_status(const char *s) { uint32_t n = strlen(s); if(zr.at + n + 3 > zr.n || zr.p[zr.at] != '+' || memcmp(zr.p + zr.at + 1, s, n) || zr.p[zr.at + n + 1] != '\r' || zr.p[zr.at + n + 2] != '\n') return 0; zr.at += n + 3; return 1; }
int zr_end(void) { return zr.at == zr.n; }
int zr_bulk_is(const void *p, uint32_t n) { const unsigned char *q; uint32_t m; if(!zr_bulk(&q, &m)) return 0; return m == n && memcmp(p, q, n) == 0; }
uint32_t zh_u32(const void *p) { uint32_t v; memcpy(&v, p, 4); return v; }
uint64_t zh_u64(const void *p) { uint64_t v; memcpy(&v, p, 8); return v; }
