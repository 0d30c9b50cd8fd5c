#include <getopt.h>
#include <stdarg.h>
#include <hiredis/hiredis.h>
#include "model.h"
// Copying a database to another server: the real copying program on one side, the real daemon as the source,
// the client library and the target server as stand-ins. The program runs on this stack, the daemon in its coroutine.
int tool_main(int argc, char **argv);
static void done(int code);
__attribute__((noreturn)) void tool_exit(int code) { done(code); z_end(); __builtin_trap(); }

#define SRC1 0
#define SRC2 1
#define OTHER 2
#define QLEN 16
#define TKEYS 8
typedef struct { redisContext c; int used, target, conn; redisReply *q[QLEN]; int qn, qat; int asked; } link_t;
static link_t links[4]; static int nlinks;
static struct { unsigned char k[256]; uint32_t kn; unsigned char v[64]; uint32_t vn; } T[TKEYS]; static int TN;   // what the target holds
static int refused, seq, replicate, rounds, touched[MKEYS], many; static char seen[512];     // touched: changed while the copy was running

static redisReply *leaf(int type, const void *p, size_t n) {
    redisReply *r = calloc(1, sizeof *r); r->type = type;
    if(p) { r->str = malloc(n + 1); memcpy(r->str, p, n); r->str[n] = 0; r->len = n; }
    return r;
}
static redisReply *parse(void) {
    const unsigned char *p; uint32_t n; int64_t v;
    if(zr.at >= zr.n) return NULL;
    if(zr_nil()) return leaf(REDIS_REPLY_NIL, NULL, 0);
    if(zr_bulk(&p, &n)) return leaf(REDIS_REPLY_STRING, p, n);
    if(zr_int(&v)) { redisReply *r = leaf(REDIS_REPLY_INTEGER, NULL, 0); r->integer = v; return r; }
    if(zr_array(&v)) {
        redisReply *r = leaf(REDIS_REPLY_ARRAY, NULL, 0); r->elements = v; r->element = calloc(v ? v : 1, sizeof(redisReply *));
        for(int64_t i = 0; i < v; i++) { r->element[i] = parse(); z_assert(r->element[i] != NULL, "well-formed-reply"); }
        return r;
    }
    z_assert(zr.p[zr.at] == '+' || zr.p[zr.at] == '-', "well-formed-reply");
    uint32_t i = zr.at + 1; while(i + 1 < zr.n && !(zr.p[i] == '\r' && zr.p[i + 1] == '\n')) i++;
    z_assert(i + 1 < zr.n, "well-formed-reply");
    redisReply *r = leaf(zr.p[zr.at] == '+' ? REDIS_REPLY_STATUS : REDIS_REPLY_ERROR, zr.p + zr.at + 1, i - zr.at - 1);
    zr.at = i + 2; return r;
}
void freeReplyObject(void *reply) {
    redisReply *r = reply; if(!r) return;
    if(r->type == REDIS_REPLY_ARRAY) { for(size_t i = 0; i < r->elements; i++) freeReplyObject(r->element[i]); free(r->element); }
    free(r->str); free(r);
}
redisContext *redisConnectWithTimeout(const char *ip, int port, const struct timeval tv) {
    (void) tv; z_assert(nlinks < 4, "few-connections");
    link_t *l = &links[nlinks++]; l->used = 1;
    if(strcmp(ip, "dst") == 0) { z_assert(port == 9902, "target-port"); l->target = 1; }
    else { z_assert(strcmp(ip, "src") == 0 && port == 9901, "source-address"); static int nsrc; l->conn = nsrc++; z_assert(nsrc <= 2, "few-connections"); zh_connect(l->conn); }
    return &l->c;
}
redisContext *redisConnect(const char *ip, int port) { struct timeval tv = {0, 0}; return redisConnectWithTimeout(ip, port, tv); }
void redisFree(redisContext *c) { (void) c; }
int redisSetTimeout(redisContext *c, const struct timeval tv) { (void) c; (void) tv; return REDIS_OK; }

// another client of the source does something, at most `meddle` times, at any moment
static int meddle_left;
static void other_writes(void) {
    unsigned char v[4]; int i = z_choice(2, "which"), keep = m_c; m_c = OTHER;
    zreply_t zkeep = zr;
    if(seq) { m_value(v, 1); if(i == 0) touched[m_new(v, 1)] = 1; else if(MN) { m_del(0); touched[0] = 1; } }
    else { touched[i] = 1; if(M[i].have && z_choice(2, "delete")) m_del(i); else { m_value(v, 1); m_set(i, v, 1); } }
    zr = zkeep; m_c = keep;
}
static void moment(void) { if(meddle_left > 0 && z_choice(2, "meanwhile")) { meddle_left--; other_writes(); z_cover("meanwhile"); } }

static redisReply *target_set(const zarg_t *a, int n) {
    z_assert(n == 3 && a[0].n == 3 && memcmp(a[0].p, "SET", 3) == 0, "target-only-receives-writes");
    z_assert(a[1].n > 0 && a[1].n < 256, "key-copied"); z_assert(a[2].n <= 64, "value-copied");
    if(z_param("refuse", 0) && z_choice(2, "refused")) { refused = 1; z_cover("refused"); if(z_choice(2, "lost")) return NULL; return leaf(REDIS_REPLY_ERROR, "No space left on this namespace", 31); }
    if(many) {      // k<digits> holds v<digits>
        z_assert(a[1].n == 4 && a[2].n == 4 && memcmp((char *) a[1].p + 1, (char *) a[2].p + 1, 3) == 0 && *(char *) a[2].p == 'v', "only-copies-what-the-source-holds");
        int i = atoi((char *) a[1].p + 1); z_assert(i >= 0 && i < many && !seen[i], "no-invented-key"); seen[i] = 1; TN++;
        return leaf(REDIS_REPLY_STRING, a[1].p, a[1].n);
    }
    // whatever is written was the value of that key at some time
    int known = 0;
    for(int i = 0; i < MN; i++) if(M[i].kn == a[1].n && memcmp(M[i].k, a[1].p, a[1].n) == 0)
        for(int j = 0; j < M[i].nv; j++) if(M[i].ver[j].n == a[2].n) known |= memcmp(M[i].ver[j].v, a[2].p, a[2].n) == 0;
    z_assert(known, "only-copies-what-the-source-holds");
    int t; for(t = 0; t < TN; t++) if(T[t].kn == a[1].n && memcmp(T[t].k, a[1].p, a[1].n) == 0) break;
    if(t == TN) { z_assert(TN < TKEYS, "no-invented-key"); TN++; memcpy(T[t].k, a[1].p, a[1].n); T[t].kn = a[1].n; }
    memcpy(T[t].v, a[2].p, a[2].n); T[t].vn = a[2].n;
    return leaf(REDIS_REPLY_STRING, a[1].p, a[1].n);
}
static int complete(void) {
    int bad = 0;
    for(int i = 0; i < MN; i++) if(M[i].have && !touched[i]) {
        int t; for(t = 0; t < TN; t++) if(T[t].kn == M[i].kn && memcmp(T[t].k, M[i].k, M[i].kn) == 0) break;
        if(t == TN) return 0;
        mver_t *l = &M[i].ver[M[i].nv - 1];
        if(T[t].vn != l->n) return 0;
        bad |= memcmp(T[t].v, l->v, l->n) != 0;
    }
    return !bad;
}

// the program waits for a change: whatever was there at the last signal has been copied
static int waiting(link_t *l) {
    z_assert(!refused, "incomplete-copy-told");
    if(rounds > 0 && !refused) z_assert(complete(), "replica-up-to-date");
    memset(touched, 0, sizeof touched);
    if(rounds == z_param("rounds", 1)) return 0;
    rounds++;
    zh_run();
    z_cover("waited");
    // somebody writes (several times), the signal is sent
    unsigned char v[4]; int keep = m_c, w = 0; m_c = OTHER;
    for(int k = 0; k < 1 + (z_param("more", 0) && z_choice(2, "more")); k++) { m_value(v, 1); if(seq) w |= (m_new(v, 1), 1); else w |= m_set((int) z_choice(2, "which"), v, 1); }
    m_c = keep; (void) w;
    return 1;
}
static redisReply *result(link_t *l) {
    if(l->qat < l->qn) { redisReply *r = l->q[l->qat++]; if(l->qat == l->qn) l->qat = l->qn = 0; return r; }
    if(l->target) return NULL;
    zh_run(); conn_t *k = &conns[l->conn];
    z_assert(zh_alive(), "source-alive");
    if(l->asked == 0) return NULL;
    zr.p = k->tx + k->txpos; zr.n = k->txlen - k->txpos; zr.at = 0;
    if(zr.n == 0) { env.now_sec += 10; zh_idle(); zr.n = k->txlen - k->txpos; }      // nothing yet: time passes
    redisReply *r = parse(); k->txpos += zr.at; l->asked--;
    if(k->txpos == k->txlen) k->txpos = k->txlen = 0;
    z_assert(r != NULL, "source-answers");
    return r;
}
static int submit(link_t *l, int n, const zarg_t *a) {
    if(l->target) { z_assert(l->qn < QLEN, "harness:queue"); l->q[l->qn++] = target_set(a, n); return REDIS_OK; }
    moment();
    zh_feed_cmd(l->conn, n, a); l->asked++;
    if(n >= 1 && a[0].n == 4 && memcmp(a[0].p, "WAIT", 4) == 0) { if(!waiting(l)) return REDIS_ERR; }
    return REDIS_OK;
}
static int format(const char *f, va_list ap, zarg_t *a) {
    int n = 0; static char text[256]; uint32_t at = 0;
    while(*f) {
        while(*f == ' ') f++;
        if(!*f) break;
        z_assert(n < 8, "harness:arguments");
        if(f[0] == '%' && (f[1] == 's' || f[1] == 'b') && (f[2] == ' ' || f[2] == 0)) { a[n].p = va_arg(ap, char *); a[n].n = f[1] == 's' ? strlen((char *) a[n].p) : (uint32_t) va_arg(ap, size_t); n++; f += 2; continue; }
        a[n].p = text + at; a[n].n = 0;
        while(*f && *f != ' ') { z_assert(*f != '%' && at < sizeof text, "harness:format"); text[at++] = *f++; a[n].n++; }
        n++;
    }
    return n;
}
int redisvAppendCommand(redisContext *c, const char *f, va_list ap) { zarg_t a[8]; int n = format(f, ap, a); return submit((link_t *) c, n, a); }
int redisAppendCommand(redisContext *c, const char *f, ...) { va_list ap; va_start(ap, f); int r = redisvAppendCommand(c, f, ap); va_end(ap); return r; }
int redisGetReply(redisContext *c, void **r) { *r = result((link_t *) c); if(!*r) strcpy(c->errstr, "lost"); return *r ? REDIS_OK : REDIS_ERR; }
void *redisvCommand(redisContext *c, const char *f, va_list ap) { void *r; if(redisvAppendCommand(c, f, ap) != REDIS_OK) return NULL; return redisGetReply(c, &r) == REDIS_OK ? r : NULL; }
void *redisCommand(redisContext *c, const char *f, ...) { va_list ap; va_start(ap, f); void *r = redisvCommand(c, f, ap); va_end(ap); return r; }
int redisAppendCommandArgv(redisContext *c, int argc, const char **argv, const size_t *len) { zarg_t a[8]; z_assert(argc <= 8, "harness:arguments"); for(int i = 0; i < argc; i++) { a[i].p = argv[i]; a[i].n = len ? len[i] : strlen(argv[i]); } return submit((link_t *) c, argc, a); }
void *redisCommandArgv(redisContext *c, int argc, const char **argv, const size_t *len) { void *r; if(redisAppendCommandArgv(c, argc, argv, len) != REDIS_OK) return NULL; return redisGetReply(c, &r) == REDIS_OK ? r : NULL; }

static void done(int code) {
    if(!replicate) {
        if(refused) z_assert(code != 0, "incomplete-copy-told");
        else if(many) z_assert(code == 0 && TN == many, "everything-copied");
        else { z_assert(code == 0, "copy-succeeds"); z_assert(complete(), "everything-copied"); }
        if(TN > 1) z_cover("several");
    } else if(refused) z_assert(code != 0, "incomplete-copy-told"); else z_cover(rounds ? "followed" : "stopped");
    if(!many) m_verify();
    z_cover("end");
}
void zmain(void) {
    seq = z_param("seq", 0); replicate = z_param("replicate", 0);
    int ops = z_param("ops", 2); env_reset(); m_init(seq);
    if(seq) { zh_opts[0] = "--mode"; zh_opts[1] = "seq"; }
    if(z_param("slow", 0)) env.utick = 1500;
    zh_boot(); zh_connect(OTHER); m_c = OTHER;
    many = z_param("many", 0);
    for(int i = 0; i < many; i++) { char k[8], v[8]; snprintf(k, sizeof k, "k%03d", i); snprintf(v, sizeof v, "v%03d", i); z_assert(CMD(OTHER, S("SET"), B(k, 4), B(v, 4)) && !zr_error(), "set-ok"); }
    if(!seq && !many) m_keys(2, 0);
    for(int i = 0; i < ops; i++) {
        m_random_op(2, 2, 0);
        if(z_param("jump", 0) && z_choice(2, "jump")) { z_assert(CMD(OTHER, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
    }
    meddle_left = z_param("meddle", 0);
    static char *argv[] = { "tool", "--source-host", "src", "--source-port", "9901", "--remote-host", "dst", "--remote-port", "9902", NULL };
    optind = 1;
    done(tool_main(9, argv));
}
