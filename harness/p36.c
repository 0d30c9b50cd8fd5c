#include <getopt.h>
#include "model.h"
#include "files.h"
// The offline tools.
int tool_main(int argc, char **argv); int index_set_buckets_bits(uint8_t bits);
static char *targv[16]; static int targc;
static void tool_entry(void) { env.exit_code = tool_main(targc, targv); env.finished = 1; }
static int ended;      // exit status
static void tool(const char *a, ...) {
    __builtin_va_list ap; __builtin_va_start(ap, a); targc = 0; targv[targc++] = "tool";
    for(const char *s = a; s; s = __builtin_va_arg(ap, const char *)) targv[targc++] = (char *) s;
    __builtin_va_end(ap); targv[targc] = NULL;
    z_reset_globals(); env_new_process(); optind = 1; index_set_buckets_bits(zh_bits);
    env.exit_code = 0; z_coro_start(tool_entry); env.in_coro = 1; z_coro_resume(); env.in_coro = 0;
    z_assert(!env.crashed && (env.finished || env.exited), "tool-ends"); ended = env.exit_code;
    env_close_all();
}
static vnode_t before[VFS_NODES];
static void remember(void) { memcpy(before, vfs, sizeof before); }
static void untouched(const char *prefix) {
    uint32_t n = strlen(prefix);
    for(int i = 0; i < VFS_NODES; i++) {
        vnode_t *a = &before[i], *b = &vfs[i];
        if(a->linked && strncmp(a->path, prefix, n) == 0) z_assert(b->linked && b->size == a->size && strcmp(a->path, b->path) == 0 && memcmp(a->data, b->data, a->size) == 0, "input-untouched");
        if(!a->linked && b->linked) z_assert(strncmp(b->path, prefix, n) != 0, "input-untouched");
    }
}
static const char *ns; static int other;
static void enter(void) { zh_connect(0); if(other) { z_assert(CMD(0, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "select-ok"); m_ns = "n"; } else m_ns = "default"; }
// index files (not the settings) disappear
static void lose_index(void) {
    char p[64]; snprintf(p, sizeof p, "/db/i/%s/i", ns); uint32_t n = strlen(p);
    for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && strncmp(vfs[i].path, p, n) == 0) vfs[i].linked = 0;
}
static void rebuild(int seq) {
    int ops = z_param("ops", 3), lens = z_param("vlens", 2), jump = z_param("jump", 0);
    zh_boot(); 
    if(other) { zh_connect(0); z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok"); }
    enter();
    if(!seq) m_keys(2, 0);
    for(int i = 0; i < ops; i++) {
        m_random_op(2, lens, 0);
        if(jump && i < ops - 1 && z_choice(2, "jump")) { z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); if(i == 0 && z_choice(2, "twice")) CMD(0, S("NSJUMP")); z_cover("jumped"); }
        if(z_param("restart", 0) && i == 0 && z_choice(2, "restart")) { zh_boot(); enter(); }
    }
    zh_stop(); lose_index();
    if(z_choice(2, "index gone")) { // the whole directory
        char p[64]; snprintf(p, sizeof p, "/db/i/%s", ns); uint32_t n = strlen(p);
        for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && strncmp(vfs[i].path, p, n) == 0) vfs[i].linked = 0;
        z_cover("directory-gone");
    }
    remember();
    tool("--data", "/db/d", "--index", "/db/i", "--namespace", ns, "--mode", seq ? "seq" : "user", NULL);
    z_assert(ended == 0, "rebuild-succeeds"); untouched("/db/d");
    z_assert(zh_boot(), "daemon-starts-on-the-rebuilt-index"); enter();
    m_verify(); m_scan(0, 0); m_scan(1, 0); for(int i = 0; i < MN; i++) m_history(i);
    unsigned char w[1]; m_value(w, 1); if(m_seq && !MN) m_new(w, 1); else m_set(0, w, 1);
    m_verify(); z_assert(zh_boot(), "daemon-restarts"); enter(); m_verify(); m_scan(0, 0); for(int i = 0; i < MN; i++) m_history(i);
    z_cover("end");
}

// ---- back to an earlier moment
static void back(int seq) {
    static ment_t saved[MKEYS]; int savedn = 0, ops = z_param("ops", 3), jump = z_param("jump", 0); char t[16];
    zh_boot(); enter();
    if(!seq) m_keys(2, 0);
    int stop = (int) z_choice((uint32_t) ops, "until"); int64_t limit = 0;
    for(int i = 0; i < ops; i++) {
        m_random_op(2, 2, 0);
        if(i == stop) { limit = env.now_sec; memcpy(saved, M, sizeof M); savedn = MN; }
        if(jump && i < ops - 1 && z_choice(2, "jump")) { z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
    }
    zh_stop(); lose_index(); remember();
    snprintf(t, sizeof t, "%ld", (long) limit);
    tool("--data", "/db/d", "--index", "/db/i", "--namespace", ns, "--mode", seq ? "seq" : "user", "--time", t, NULL);
    z_assert(ended == 0, "rebuild-succeeds"); untouched("/db/d");
    memcpy(M, saved, sizeof M); MN = savedn;
    z_assert(zh_boot(), "daemon-starts-on-the-rebuilt-index"); enter();
    m_verify(); m_scan(0, 0); m_scan(1, 0); for(int i = 0; i < MN; i++) m_history(i);
    z_cover("end");
}

// ---- settings
static char pw[4];
static void sel(int c, const char *p, int n) { if(n < 0) CMD(c, S("SELECT"), S("n")); else CMD(c, S("SELECT"), S("n"), B(p, n)); }
static int has(const char *w) { uint32_t n = strlen(w); for(uint32_t i = 0; i + n <= zr.n; i++) if(memcmp(zr.p + i, w, n) == 0) return 1; return 0; }
static void editor(int seq) {
    static const char *sizes[] = { "0", "7", "4294967296" }; char line[64];
    zh_boot(); zh_connect(0);
    z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(0, S("NSSET"), S("n"), S("mode"), B(seq ? "seq" : "user", seq ? 3 : 4)) && zr_is("+OK\r\n"), "nsset-ok");
    CMD(0, S("SELECT"), S("n")); m_ns = "n"; if(!seq) m_keys(2, 0);
    m_random_op(2, 2, 0);
    if(z_choice(2, "had settings")) { CMD(0, S("NSSET"), S("n"), S("maxsize"), S("99")); CMD(0, S("NSSET"), S("n"), S("password"), S("longer")); CMD(0, S("NSSET"), S("n"), S("worm"), S("1")); CMD(0, S("NSSET"), S("n"), S("public"), S("0")); }
    zh_stop();
    int pn = (int) z_choice(4, "password") - 1, k = (int) z_choice(3, "maxsize"), pub = (int) z_choice(3, "public"), worm = (int) z_choice(3, "worm");
    if(pn > 0) { z_bytes(pw, (size_t) pn, "pw"); for(int i = 0; i < pn; i++) z_assume(pw[i] != 0); } pw[pn < 0 ? 0 : pn] = 0;
    const char *a[13]; int n = 0; a[n++] = "--index"; a[n++] = "/db/i"; a[n++] = "--namespace"; a[n++] = "n";
    if(pn >= 0) { a[n++] = "--password"; a[n++] = pw; } if(k) { a[n++] = "--maxsize"; a[n++] = sizes[k]; }
    if(pub) { a[n++] = "--public"; a[n++] = pub == 1 ? "yes" : "no"; } if(worm) { a[n++] = "--worm"; a[n++] = worm == 1 ? "yes" : "no"; }
    a[n] = NULL; for(; n < 13; n++) a[n] = NULL;
    remember();
    tool(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], NULL);
    z_assert(ended == 0, "edit-succeeds"); untouched("/db/d"); untouched("/db/i/n/i"); untouched("/db/i/default");
    int locked = pn > 0, public = pub != 2, w = worm == 1;
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0); zh_connect(1);
    z_assert(CMD(0, S("NSINFO"), S("n")), "alive");
    z_assert(has(locked ? "password: yes\n" : "password: no\n"), "edited-password"); z_assert(has(public ? "public: yes\n" : "public: no\n"), "edited-public"); z_assert(has(w ? "worm: yes\n" : "worm: no\n"), "edited-worm");
    snprintf(line, sizeof line, "data_limits_bytes: %s\n", sizes[k]); z_assert(has(line), "edited-maxsize"); z_assert(has(seq ? "mode: sequential\n" : "mode: userkey\n"), "mode-kept");
    if(locked) { sel(1, NULL, -1); if(!public) z_assert(zr_error(), "password-needed"); else z_assert(zr_is("+OK\r\n"), "public-read"); sel(1, pw, pn); z_assert(zr_is("+OK\r\n"), "password-accepted"); z_cover("protected"); }
    else { sel(1, NULL, -1); z_assert(zr_is("+OK\r\n"), "open"); z_cover("open"); }
    m_c = 1; for(int i = 0; i < MN; i++) m_read(i);
    z_cover("end");
}

// ---- integrity of a data file
static void integrity(int seq) {
    int ops = z_param("ops", 3), many = z_param("many", 0); uint32_t at, n = 0; static uint32_t start[300]; drec_t r;
    zh_boot(); enter();
    if(many) { unsigned char v = 'v'; m_seq = 1; for(int i = 0; i < 256; i++) { v = (unsigned char) i; z_assert(CMD(0, S("SET"), S(""), B(&v, 1)), "alive"); } }
    else { if(!seq) m_keys(2, 0); for(int i = 0; i < ops; i++) { m_random_op(2, 3, 0); if(i == 0 && z_choice(2, "jump")) CMD(0, S("NSJUMP")); } }
    zh_stop();
    int id = f_data("default", 1) ? (int) z_choice(2, "file") : 0; vnode_t *f = f_data("default", id);
    for(at = DHEAD; n < 299 && (start[n] = at, f_next(f, &at, &r)); n++);
    int bad = 0;
    if(many) { bad = (int) z_choice(2, "damaged"); if(bad) for(at = DHEAD; f_next(f, &at, &r); ) f->data[at - 1] ^= 0x40; }
    else {
        int how = (int) z_choice(4, "damage");
        if(how == 1 || how == 2) {
            z_assume(n > 0); at = start[z_choice(n, "record")]; f_next(f, &at, &r); z_assume(r.datalen > 0);
            uint8_t m = z_u8("mask"); z_assume(m != 0);
            if(how == 1) f->data[(uint32_t) (r.data - f->data) + z_choice(r.datalen, "byte")] ^= m; else f->data[r.at + 9 + z_choice(4, "byte")] ^= m;
            bad = 1; z_cover("payload");
        } else if(how == 3) {
            uint32_t cut = z_choice(f->size, "cut"); f->size = cut; bad = 1; for(uint32_t i = 0; i <= n; i++) if(start[i] == cut) bad = 0;
            if(bad) z_cover("cut");
        }
    }
    char p[32]; snprintf(p, sizeof p, "/db/d/default/d%d", id);
    remember();
    tool(p, NULL);
    untouched("/db/");
    z_assert((ended != 0) == bad, bad ? "damage-told" : "intact-file-accepted");
    z_cover(bad ? "damaged" : "intact"); z_cover("end");
    tool("/db/d/default/d7", NULL); z_assert(ended != 0, "absent-file-told");
    vfs_create("/db/d/default/d0x", 0); tool("/db/d/default/d0x", NULL); z_assert(ended != 0, "other-file-told");
}
// ---- compaction: another copy, without what was deleted
static void move(const char *from, const char *to) { // what was written there takes the place
    uint32_t n = strlen(from), t = strlen(to); char p[VFS_PATH];
    for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && strncmp(vfs[i].path, to, t) == 0 && (vfs[i].path[t] == '/' || !vfs[i].path[t])) vfs[i].linked = 0;
    for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && strncmp(vfs[i].path, from, n) == 0 && (vfs[i].path[n] == '/' || !vfs[i].path[n])) { snprintf(p, sizeof p, "%s%s", to, vfs[i].path + n); snprintf(vfs[i].path, sizeof vfs[i].path, "%s", p); }
}
static uint32_t held(const char *dir) { uint32_t n = strlen(dir), s = 0; for(int i = 0; i < VFS_NODES; i++) if(vfs[i].linked && strncmp(vfs[i].path, dir, n) == 0) s += (uint32_t) vfs[i].size; return s; }
static void compact(int seq) {
    int ops = z_param("ops", 3), restart = z_param("restart", 0), deleted = 0;
    zh_boot(); if(other) { zh_connect(0); z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok"); z_assert(CMD(0, S("NSSET"), S("n"), S("maxsize"), S("4000")) && zr_is("+OK\r\n"), "nsset-ok"); } 
    enter(); if(!seq) m_keys(2, 0);
    for(int i = 0; i < ops; i++) {
        m_random_op(2, 3, 0);
        if(i < ops - 1 && z_choice(2, "jump")) { z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); }
        if(restart && i == 0) { zh_boot(); enter(); }
    }
    for(int i = 0; i < MN; i++) if(M[i].dead) deleted = 1;
    zh_stop(); remember();
    tool("--in-data", "/db/d", "--in-index", "/db/i", "--out-data", "/db/od", "--out-index", "/db/oi", "--namespace", ns, NULL);
    z_assert(ended == 0, "compaction-succeeds"); untouched("/db/d/"); untouched("/db/i/");
    char a[32], b[32]; snprintf(a, sizeof a, "/db/od/%s/", ns); snprintf(b, sizeof b, "/db/d/%s/", ns);
    z_assert(held(a) <= held(b), "not-larger"); if(deleted) { z_assert(held(a) < held(b), "deleted-data-gone"); z_cover("smaller"); }
    move("/db/od", "/db/d"); move("/db/oi", "/db/i");
    z_assert(zh_boot(), "daemon-starts-on-the-copy");
    if(other) { zh_connect(0); z_assert(CMD(0, S("NSINFO"), S("n")) && has("data_limits_bytes: 4000\n"), "settings-kept"); }
    enter();
    m_verify(); m_scan(0, 0); m_scan(1, 0);
    unsigned char w[1]; m_value(w, 1); if(m_seq && !MN) m_new(w, 1); else m_set(0, w, 1);
    m_verify(); z_assert(zh_boot(), "daemon-restarts"); enter(); m_verify(); m_scan(0, 0);
    z_cover("end");
}
static void dumps(int seq) {
    zh_boot(); enter(); if(!seq) m_keys(2, 0);
    for(int i = 0; i < z_param("ops", 3); i++) { m_random_op(2, 2, 0); if(z_choice(2, "jump")) CMD(0, S("NSJUMP")); }
    zh_stop(); remember();
    if(z_param("what", 0) == 4) tool("/db/i/default", NULL); else tool("/db/i", "default", NULL);
    z_assert(ended == 0, "dump-succeeds"); untouched("/db/");
    if(z_param("what", 0) == 5) { tool("/db/i", "nosuch", NULL); z_assert(ended != 0, "absent-namespace-told"); untouched("/db/"); }
    else { tool("/db/i/nosuch", NULL); z_assert(ended != 0, "absent-namespace-told"); }
    z_cover("end");
}
void zmain(void) {
    int seq = z_param("seq", 0), what = z_param("what", 0);
    env_reset(); zh_bits = 0; other = z_param("other", 0); ns = other ? "n" : "default";
    if(what != 2) { zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; }
    m_init(seq);
    switch(what) { case 0: rebuild(seq); break; case 1: back(seq); break; case 2: editor(seq); break; case 3: integrity(seq); break; case 6: compact(seq); break; default: dumps(seq); }
}
