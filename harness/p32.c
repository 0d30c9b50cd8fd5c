#include "model.h"
#include <errno.h>
// One instance at a time on a directory, and a start, an end and a next start without loss.
static vnode_t before[VFS_NODES];
static int base(const char *p, char kind) { const char *b = strrchr(p, '/'); if(!b || b[1] != kind || !b[2]) return 0; for(b += 2; *b; b++) if(*b < '0' || *b > '9') return 0; return 1; }
static int lockfile(const char *p) { uint32_t n = strlen(p); return n > 10 && strcmp(p + n - 10, "/.lockfile") == 0; }
static void remember(void) { memcpy(before, vfs, sizeof before); }
static void untouched(void) {
    for(int i = 0; i < VFS_NODES; i++) {
        vnode_t *a = &before[i], *b = &vfs[i];
        if(!a->linked) { z_assert(!b->linked || (!b->isdir && b->size == 0 && lockfile(b->path)), "refused-start-changes-nothing"); continue; }
        z_assert(b->linked && b->isdir == a->isdir && b->size == a->size && strcmp(a->path, b->path) == 0 && memcmp(a->data, b->data, a->size) == 0, "refused-start-changes-nothing");
    }
}
static void refused(void) {
    remember();
    z_assert(!zh_boot(), "start-refused");
    z_assert(!env.crashed && env.exit_code != 0, "refused-start-is-told");
    untouched();
}
static vnode_t *lockof(const char *dir) { char p[64]; snprintf(p, sizeof p, "%s/.lockfile", dir); return vfs_find(p); }
static int mine(const char *dir) { vnode_t *n = lockof(dir); return n && n->lock == 1; }
static void held(void) { z_assert(mine("/db/i") && mine("/db/d"), "both-directories-stay-locked"); }
static void fill(int ops) { if(!m_seq) m_keys(2, 0); for(int i = 0; i < ops; i++) m_random_op(2, 2, 0); }
static void opts(const char *a, const char *b, const char *c, const char *d) { int n = 0; while(zh_opts[n]) n++; zh_opts[n] = a; if(a) zh_opts[n + 1] = b; if(a && b) zh_opts[n + 2] = c; if(a && b && c) zh_opts[n + 3] = d; }
static void unopt(int n) { for(int i = n; i < 16; i++) zh_opts[i] = NULL; }

// ---- another process holds a lock
static void locks(void) {
    int fresh = z_choice(2, "fresh"), nopt = 0; while(zh_opts[nopt]) nopt++;
    if(!fresh) { zh_boot(); zh_connect(0); fill(z_param("ops", 2)); z_cover("content"); zh_stop(); }
    int which = z_choice(3, "held by another"), swap = z_choice(2, "directories swapped");
    if(which != 1) vfs_create("/db/i/.lockfile", 0)->lock = 2;
    if(which != 0) vfs_create("/db/d/.lockfile", 0)->lock = 2;
    if(swap) opts("--index", "/db/d", "--data", "/db/i");
    refused();
    z_assert(which == 1 || lockof("/db/i")->lock == 2, "lock-of-the-other"); z_assert(which == 0 || lockof("/db/d")->lock == 2, "lock-of-the-other");
    unopt(nopt);
    if(z_choice(2, "again")) refused();
    env_close_all();
    vnode_t *n; if((n = lockof("/db/i"))) { z_assert(n->lock != 1, "refused-start-holds-nothing"); n->lock = 0; } if((n = lockof("/db/d"))) { z_assert(n->lock != 1, "refused-start-holds-nothing"); n->lock = 0; }
    z_assert(zh_boot(), "starts-once-free"); zh_connect(0); held();
    if(fresh) { fill(1); } 
    m_verify(); m_scan(0, 0);
    z_cover("end");
}

// ---- the same directory for both
static void same(void) {
    static const char *spell[] = { "/db/d", "/db/d/", "/db/./d", "/db//d", "/db/i/../d", "/db/d/.", "/db/d/../d" };
    int content = z_choice(2, "content"), k = z_choice(7, "spelling"), nopt = 0; while(zh_opts[nopt]) nopt++;
    if(content) { zh_boot(); zh_connect(0); fill(1); zh_stop(); }
    if(z_choice(2, "index")) opts("--index", spell[k], NULL, NULL); else { static char alt[32]; strcpy(alt, spell[k]); if(strstr(alt, "/i/")) z_assume(0); for(char *p = alt + 1; *p; p++) if(*p == 'd' && (p[1] == 0 || p[1] == '/') && p[-1] == '/') *p = 'i'; opts("--data", alt, NULL, NULL); }
    refused(); z_cover("refused");
    unopt(nopt); env_close_all();
    z_assert(zh_boot(), "starts-with-two-directories"); zh_connect(0); if(content) { m_verify(); m_scan(0, 0); }
    z_cover("end");
}

// ---- held by this instance whatever is asked, and free when it ends, whatever the way
static int on_wait(int pid, int *st) { if(pid > 0) { *st = 0; return pid; } errno = ECHILD; return -1; }
static void event(int k, int n) {
    static const char *names[] = { "xa", "xb" }; zarg_t name = B(names[n & 1], 2);
    switch(k) {
        case 0: m_random_op(2, 2, 0); break;
        case 1: CMD(0, S("NSNEW"), name); break;
        case 2: CMD(0, S("NSDEL"), S("xa")); break;
        case 3: z_assert(CMD(0, S("NSJUMP")), "alive"); break;
        case 4: CMD(0, S("RELOAD"), S("default")); break;
        case 5: CMD(0, S("NSNEW"), S("p")); CMD(0, S("NSSET"), S("p"), S("password"), S("w")); CMD(0, S("NSSET"), S("p"), S("public"), S("0")); CMD(0, S("SELECT"), S("p"), S("w")); z_assert(CMD(0, S("FLUSH")), "alive"); CMD(0, S("SELECT"), S("default")); break;
        case 6: zh_connect(2); conns[2].hup = 1; conns[2].in_ready = 1; zh_run(); break;
        case 7: zh_idle(); break;
        default: CMD(0, S("INDEX"), S("DIRTY"), S("RESET")); break;
    }
    z_assert(zh_alive(), "alive"); held();
}
// a power loss which takes what index and data files had not forced to the disk
static void power(void) {
    env_close_all();
    for(int i = 0; i < VFS_NODES; i++) { vnode_t *n = &vfs[i]; if(!n->linked || n->isdir || !(base(n->path, 'i') || base(n->path, 'd'))) continue; memcpy(n->data, n->sdata, n->ssize); n->size = n->ssize; }
}
static void ends(void) {
    int jump = z_param("jump", 0), n = z_param("events", 2), nopt = 0; while(zh_opts[nopt]) nopt++;
    if(jump) opts("--secure", NULL, NULL, NULL);
    zh_boot(); zh_connect(0); zh_connect(1); held(); fill(1);
    for(int i = 0; i < n; i++) { int k = z_choice(jump ? 9 : 8, "event"); if(k == 3 && !jump) k = 8; event(k, i); }
    int how = z_choice(4, "end");
    if(how < 3) {
        if(how < 2) { env.signal = how ? 2 : 15; conns[0].in_ready = 1; zh_run(); z_assert(env.exited && env.exit_code == 128 + (how ? 2 : 15), "ends-on-request"); }
        else { CMD(0, S("STOP")); if(zh_alive()) zh_idle(); z_assert(!env.crashed && !zh_alive(), "ends-on-request"); z_assert(!mine("/db/i") && !mine("/db/d"), "locks-released"); z_assert(env_descriptors() == 0, "descriptors-released"); }
        z_cover(how < 2 ? "signal" : "stop");
        if(z_choice(2, "power loss")) { z_cover("power-loss"); power(); }
    } else z_cover("killed");
    env_close_all(); 
    z_assert(zh_boot(), "starts-again"); zh_connect(0); held();
    m_verify(); m_scan(0, 0); m_scan(1, 0);
    unsigned char w[2]; m_value(w, 2); if(m_seq) m_new(w, 2); else m_set(0, w, 2);
    m_verify();
    z_cover("end");
}

// ---- programs run by the instance
static int inchild;
static int on_fork(void) { if(z_choice(2, "child")) { inchild = 1; return 0; } return -2; }
static void on_exec(const char *p, char **argv) {
    (void) p; (void) argv; int k = env_inherited();
    z_assert(inchild, "hook-in-the-child");
    z_assert(!(k & 1), "locks-not-inherited"); z_assert(!(k & 2), "listening-socket-not-inherited"); z_assert(!(k & 4), "connections-not-inherited");
    z_cover("child"); z_assume(0);
}
static void hooks(void) {
    opts("--hook", "/h/hook", NULL, NULL);
    env.fork_fn = on_fork; env.exec_fn = on_exec; env.wait_fn = on_wait;
    zh_boot(); zh_connect(0); if(z_choice(2, "two clients")) zh_connect(1);
    fill(1);
    int k = z_choice(6, "event"); event(k, 0); if(k == 1) event(2, 0);
    env.signal = 15; conns[0].in_ready = 1; zh_run(); z_assert(env.exited, "ends-on-request");
    z_cover("end");
}

// ---- options
static void options(void) {
    static const struct { const char *v; int ok; } sizes[] = { { "524288", 1 }, { "524287", 0 }, { "512k", 1 }, { "511k", 0 }, { "0.5M", 1 }, { "1M", 1 }, { "1.5M", 1 }, { "1G", 1 }, { "3G", 1 }, { "4G", 0 }, { "4294967294", 1 }, { "4294967295", 0 }, { "1T", 0 }, { "0", 0 }, { "-1", 0 }, { "", 0 }, { "k", 0 }, { "600000x", 0 }, { "1m", 0 }, { "99999999999T", 0 } };
    int content = z_choice(2, "content"), nopt = 0, ok = 0; while(zh_opts[nopt]) nopt++;
    if(content) { zh_boot(); zh_connect(0); fill(1); zh_stop(); }
    static char word[8];
    switch(z_choice(4, "option")) {
        case 0: { int n = z_choice(7, "length"); z_bytes(word, n, "mode"); word[n] = 0; for(int i = 0; i < n; i++) z_assume(word[i] != 0);
            ok = strcmp(word, "user") == 0 || strcmp(word, "direct") == 0 || strcmp(word, "seq") == 0;
            if(nopt && ok) z_assume(0);
            opts("--mode", word, NULL, NULL); if(ok) { z_cover("mode-accepted"); z_assume(!content); } break; }
        case 1: { int k = z_choice((int) (sizeof sizes / sizeof sizes[0]), "size"); ok = sizes[k].ok; opts("--datasize", sizes[k].v, NULL, NULL); if(ok) z_cover("size-accepted"); break; }
        case 2: ok = z_choice(2, "admin"); if(ok) opts("--protect", "--admin", "x", NULL); else opts("--protect", NULL, NULL, NULL); break;
        default: { static const char *bad[] = { "--unknown", "--", "--mode", "--datasize", "--rotate" }; int k = z_choice(5, "bad"); if(k == 1) { ok = 1; z_assume(0); } opts(bad[k], NULL, NULL, NULL); break; }
    }
    if(!ok) { refused(); z_cover("refused"); unopt(nopt); env_close_all(); z_assert(zh_boot(), "starts-again"); zh_connect(0); held(); if(content) { m_verify(); m_scan(0, 0); } }
    else { z_assert(zh_boot(), "starts"); zh_connect(0); held(); if(content) { m_verify(); m_scan(0, 0); } }
    z_cover("end");
}
void zmain(void) {
    int seq = z_param("seq", 0); static const char *mode;
    env_reset(); zh_bits = 0; mode = seq ? "seq" : "user";
    int what = z_param("what", 0);
    if(what != 4) { zh_opts[0] = "--mode"; zh_opts[1] = mode; }
    m_init(seq);
    switch(what) { case 0: locks(); break; case 1: same(); break; case 2: ends(); break; case 3: hooks(); break; default: options(); break; }
}
