#include "zharn.h"
#include <errno.h>
// Hooks: each event runs the hook program once, with the documented arguments; blocking ones are waited for and
// their outcome obeyed; HOOKS tells what ran and how it ended.
typedef struct { const char *a[6]; int n, blocking, pid, running, failed, gone; int64_t created, finished; int status; } hk_t;
#define ID "tcp://:::9900"
static hk_t H[24]; static int nh, expected, killed, nofork, allowfail, children;
static uint8_t outcome; static const char *restore;
static int done_pid, done_status;
static void expect(int blocking, int n, const char *a0, const char *a1, const char *a2, const char *a3, const char *a4) {
    hk_t *h = &H[expected++]; const char *a[] = { a0, a1, a2, a3, a4 };
    if(expected > 23) z_fail("harness-hooks");
    memset(h, 0, sizeof *h); h->n = n; h->blocking = blocking; for(int i = 0; i < 5; i++) h->a[i] = a[i];
}
static int refused;   // the ready hook may fail: then the namespaces are closed again
static int on_fork(void) {
    if(refused && nh == 2 && expected == 2 && (outcome || killed || H[1].failed)) expect(0, 5, "namespace-closing", "default", "/db/i/default/i0", "/db/d/default/d0", "");
    z_assert(nh < expected, "hook-runs-once-per-event");
    hk_t *h = &H[nh++]; h->created = env.now_sec;
    if(allowfail && z_choice(2, "cannot start")) { allowfail = 0; h->failed = 1; h->pid = 0; h->finished = env.now_sec; z_cover("not-started"); return -1; }
    if(children && z_choice(2, "in the child")) return 0;
    // a number which is free again may be given to another process
    if(z_param("reuse", 0) && nh > 1 && H[nh - 2].pid && !H[nh - 2].running) { env.next_pid = H[nh - 2].pid - 5001; z_cover("number-reused"); }
    h->pid = env.next_pid + 5001; h->running = 1;
    return -2;
}
static void on_exec(const char *p, char **argv) {
    hk_t *h = &H[nh - 1];
    z_assert(strcmp(p, "/h/hook") == 0 && strcmp(argv[0], "/h/hook") == 0, "hook-program-run");
    z_assert(strcmp(argv[1], h->a[0]) == 0, "hook-name");
    z_assert(strcmp(argv[2], ID) == 0, "hook-server-id");
    for(int i = 1; i < h->n; i++) z_assert(argv[i + 2] && strcmp(argv[i + 2], h->a[i]) == 0, "hook-arguments");
    z_assert(argv[h->n + 2] == NULL, "hook-arguments");
    z_cover("child"); z_assume(0);
}
static int on_wait(int pid, int *st) {
    if(pid > 0) {
        hk_t *h = &H[nh - 1];
        z_assert(nh > 0 && h->blocking && h->running && h->pid == pid, "only-blocking-hooks-waited-for");
        if(restore) { const char *r = restore; restore = NULL; vnode_t *v = vfs_find(r); if(v && outcome == 0) { memcpy(v->path, "/db/d/default/d0", 17); z_cover("restored"); } }
        h->running = 0; h->finished = env.now_sec; h->status = killed ? -1 : outcome; *st = killed ? 9 : outcome << 8;
        return pid;
    }
    z_assert(pid == -1, "only-blocking-hooks-waited-for");
    if(!done_pid) { int any = 0; for(int i = 0; i < nh; i++) any |= H[i].running; if(any) return 0; errno = ECHILD; return -1; }
    for(int i = 0; i < nh; i++) if(H[i].pid == done_pid && H[i].running) {
        H[i].running = 0; H[i].finished = env.now_sec; H[i].status = killed ? -1 : done_status; *st = killed ? 9 : done_status << 8; done_pid = 0; return H[i].pid; }
    z_fail("harness-pid"); return 0;
}
static void all_run(void) { z_assert(nh == expected, "hook-runs-once-per-event"); for(int i = 0; i < nh; i++) z_assert(!H[i].blocking || !H[i].running, "blocking-hooks-waited-for"); }
static void listing(void) {
    int64_t k, a, n, pid, c, f, s; const unsigned char *p; uint32_t l; int seen[24]; memset(seen, 0, sizeof seen);
    all_run();
    z_assert(CMD(0, S("HOOKS")) && zr_array(&k), "hooks-listed");
    for(int64_t i = 0; i < k; i++) {
        unsigned char av[5][64]; uint32_t al[5]; int j; unsigned char ty[32]; uint32_t tl;
        z_assert(zr_array(&a) && a == 6 && zr_bulk(&p, &tl) && tl < 32, "hook-entry"); memcpy(ty, p, tl);
        z_assert(zr_array(&n) && n >= 0 && n < 5, "hook-entry");
        for(int x = 0; x < n; x++) { z_assert(zr_bulk(&p, &l) && l < 64, "hook-entry"); memcpy(av[x], p, l); al[x] = l; }
        z_assert(zr_int(&pid) && zr_int(&c) && zr_int(&f) && zr_int(&s), "hook-entry");
        for(j = 0; j < nh; j++) if(!seen[j] && H[j].pid == pid && strlen(H[j].a[0]) == tl && memcmp(H[j].a[0], ty, tl) == 0 && (!z_param("reuse", 0) || (H[j].created == c && H[j].finished == f))) break;
        z_assert(j < nh, "only-hooks-which-ran-are-listed"); seen[j] = 1;
        z_assert(n == H[j].n - 1, "hook-arguments-listed");
        for(int x = 0; x < n; x++) z_assert(al[x] == strlen(H[j].a[x + 1]) && memcmp(av[x], H[j].a[x + 1], al[x]) == 0, "hook-arguments-listed");
        z_assert(c == H[j].created && f == H[j].finished, "hook-times-listed");
        z_assert((!H[j].failed && H[j].status >= 0) ? s == H[j].status : s != 0, "hook-outcome-listed");
        z_assert(!H[j].gone, "old-hooks-forgotten");
    }
    z_assert(zr_end(), "hook-entry");
    for(int j = 0; j < nh; j++) if(!seen[j]) { z_assert(!H[j].running && env.now_sec - H[j].finished > 60, "recent-hooks-listed"); z_cover("forgotten"); }
}
static void boot_hooks(void) { expect(1, 3, "namespaces-init", "/db/i", "/db/d", 0, 0); expect(1, 1, "ready", 0, 0, 0, 0); }
static int64_t dirty(int64_t *list) { int64_t n; z_assert(CMD(0, S("INDEX"), S("DIRTY")) && zr_array(&n) && n < 8, "list"); for(int i = 0; i < n; i++) z_assert(zr_int(&list[i]), "list"); z_assert(zr_end(), "list"); return n; }
static void start(void) {
    env_reset(); zh_bits = 0; env.fork_fn = on_fork; env.exec_fn = on_exec; env.wait_fn = on_wait;
    zh_opts[0] = "--hook"; zh_opts[1] = "/h/hook"; zh_opts[2] = "--mode"; zh_opts[3] = z_param("seq", 0) ? "seq" : "user"; zh_opts[4] = NULL;
    boot_hooks();
}
static void ended(int code) { z_assert(!zh_alive() && env.exited && env.exit_code == code, "stops-with-the-signal-code"); }
// one arbitrary event after another
static void events(int ops) {
    int have = 0, jumps = 0; char key[9] = "k"; uint32_t kn = z_param("seq", 0) ? 0 : 1;
    static char ip[8][24], dp[8][24];
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    const unsigned char *p; uint32_t l;
    z_assert(CMD(0, S("SET"), B(key, kn), S("v")) && zr_bulk(&p, &l) && l <= 8, "set-ok"); memcpy(key, p, l); kn = l;
    listing();
    int many = z_param("many", 0);
    if(many) { // more than the list has room for at first
        expect(0, 2, "namespace-created", "n", 0, 0, 0); z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok"); have = 1;
        many = 4 + (int) z_choice(7, "hooks");
        for(int i = 0; i < many; i++) { env.now_sec++; expect(0, 2, "namespace-updated", "n", 0, 0, 0); z_assert(CMD(0, S("NSSET"), S("n"), S("maxsize"), S("9")) && zr_is("+OK\r\n"), "nsset-ok"); }
        if(z_choice(2, "all end")) for(int i = 2; i < nh; i++) { done_pid = H[i].pid; done_status = 1; env.now_sec += 100; z_assert(zh_idle(), "daemon-alive"); }
    }
    for(int s = 0; s < ops; s++) {
        env.now_sec++;
        allowfail = z_param("fail", 0); outcome = 0; killed = 0;
        switch(z_choice(9, "event")) {
        case 0: z_assume(!have); expect(0, 2, "namespace-created", "n", 0, 0, 0); z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok"); have = 1; break;
        case 1: z_assume(have); expect(0, 2, "namespace-updated", "n", 0, 0, 0); z_assert(CMD(0, S("NSSET"), S("n"), S("maxsize"), S("9")) && zr_is("+OK\r\n"), "nsset-ok"); break;
        case 2: z_assume(have); expect(0, 2, "namespace-reloaded", "n", 0, 0, 0); z_assert(CMD(0, S("RELOAD"), S("n")) && zr_is("+OK\r\n"), "reload-ok"); break;
        case 3: z_assume(have); expect(0, 2, "namespace-deleted", "n", 0, 0, 0); z_assert(CMD(0, S("NSDEL"), S("n")) && zr_is("+OK\r\n"), "nsdel-ok"); have = 0; break;
        case 4: {
            z_assume(jumps < 6);
            for(int j = 0; j < 2; j++) { memcpy(ip[jumps + j], "/db/i/default/i0", 17); memcpy(dp[jumps + j], "/db/d/default/d0", 17); ip[jumps + j][15] = dp[jumps + j][15] = (char) ('0' + jumps + j); }
            // an older entry changed: its file is dirty
            int64_t l[8], n; static char txt[8][24]; char *t = txt[jumps];
            if(jumps && z_choice(2, "rewrite")) z_assert(CMD(0, S("SET"), B(key, kn), B(&"abcdefgh"[jumps], 1)) && !zr_error(), "set-ok");
            n = dirty(l); t[0] = 0; int at = 0; for(int i = 0; i < n; i++) { z_assert(l[i] < 10, "list"); if(at) t[at++] = ' '; t[at++] = (char) ('0' + l[i]); t[at] = 0; }
            if(n) z_cover("dirty");
            uint32_t how = z_choice(3, "outcome"); killed = how == 2; outcome = how == 1 ? z_u8("status") : 0; if(how == 1) z_assume(outcome != 0);
            int may = allowfail;
            expect(1, 4, "jump-index", ip[jumps], ip[jumps + 1], t, 0); expect(0, 3, "jump-data", dp[jumps], dp[jumps + 1], 0, 0);
            z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok");
            int64_t m = dirty(l);
            int failed = may && H[nh - 2].failed;
            if(how == 0 && !failed) z_assert(m == 0, "saved-index-no-longer-dirty"); else { z_assert(m == n, "index-not-saved-stays-dirty"); if(n) z_cover("not-saved"); }
            jumps++; break; }
        case 5: { // a child ends
            int i; for(i = nh - 1; i >= 0; i--) if(H[i].running && (i == 0 || z_choice(2, "other") == 0)) break;
            z_assume(i >= 0); done_pid = H[i].pid; done_status = z_u8("status"); killed = (int) z_choice(2, "killed");
            env.now_sec += 5; z_assert(zh_idle() && !done_pid, "ended-hooks-collected"); z_cover("ended"); break; }
        case 6: {
            env.now_sec += z_choice(2, "long") ? 1000 : 50; z_assert(zh_idle(), "daemon-alive");
            int running = 0; for(int i = 0; i < nh; i++) running |= H[i].running;
            if(!running) for(int i = 0; i < nh; i++) if(env.now_sec - H[i].finished > 600) H[i].gone = 1;
            break; }
        case 7: z_assert(CMD(0, S("GET"), B(key, kn)), "daemon-alive"); break;
        case 8: {
            int code = z_choice(2, "signal") ? 2 : 15;
            // where it stands, the list of rewritten files is handed over
            int64_t l[8], n = dirty(l); static char t[24]; t[0] = 0; int at = 0; for(int i = 0; i < n; i++) { if(at) t[at++] = ' '; t[at++] = (char) ('0' + l[i]); t[at] = 0; }
            memcpy(ip[7], "/db/i/default/i0", 17); memcpy(dp[7], "/db/d/default/d0", 17); ip[7][15] = dp[7][15] = (char) ('0' + jumps);
            expect(1, 1, "close", 0, 0, 0, 0); expect(0, 5, "namespace-closing", "default", ip[7], dp[7], t); if(have) expect(0, 5, "namespace-closing", "n", "/db/i/n/i0", "/db/d/n/d0", "");
            env.signal = code; zh_idle(); ended(128 + code); all_run(); z_cover("stopped"); return; }
        }
        if(nh && H[nh - 1].failed) z_cover("went-on");
        allowfail = 0;
        listing();
    }
    z_cover("end");
}
// the hook which tells whether to start
static void ready(void) {
    outcome = z_u8("status"); killed = (int) z_choice(2, "killed"); allowfail = (int) z_choice(2, "may fail");
    refused = 1;
    int up = zh_boot(); int failed = 0; for(int i = 0; i < nh; i++) if(H[i].failed && strcmp(H[i].a[0], "ready") == 0) failed = 1;
    all_run();
    z_assert(up == (outcome == 0 && !killed && !failed), "starts-exactly-if-ready-succeeds");
    z_assert(nh == (up ? 2 : 3), "hook-runs-once-per-event");
    if(up) { z_cover("up"); zh_connect(0); allowfail = 0; listing(); } else z_cover("down");
    z_cover("end");
}
// a data file which is not there is asked for
static void missing(void) {
    unsigned char v[3]; z_bytes(v, 3, "v"); int seq = z_param("seq", 0); unsigned char id[9] = "k"; uint32_t n, kn = 1; const unsigned char *p;
    children = 0;
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    z_assert(CMD(0, S("SET"), B(id, seq ? 0 : 1), B(v, 3)) && zr_bulk(&p, &n), "set-ok"); memcpy(id, p, n); kn = n;
    expect(1, 4, "jump-index", "/db/i/default/i0", "/db/i/default/i1", "", 0); expect(0, 3, "jump-data", "/db/d/default/d0", "/db/d/default/d1", 0, 0);
    z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok");
    vnode_t *f = vfs_find("/db/d/default/d0"); z_assert(f != NULL, "file"); strcpy(f->path, "/elsewhere");
    if(z_choice(2, "restart")) { nh = expected = 0; boot_hooks(); z_assert(zh_boot(), "starts-without-old-data-files"); zh_connect(0); }
    children = 1; allowfail = (int) z_choice(2, "may fail"); int may = allowfail;
    outcome = z_choice(2, "fails") ? z_u8("status") : 0; killed = (int) z_choice(2, "killed"); restore = killed ? NULL : "/elsewhere";
    if(outcome) z_cover("refused");
    expect(1, 2, "missing-data", "/db/d/default/d0", 0, 0, 0);
    z_assert(CMD(0, S("GET"), B(id, kn)), "daemon-alive");
    int got = !zr_error(); all_run();
    int failed = may && H[nh - 1].failed; allowfail = 0;
    z_assert(got == (outcome == 0 && !killed && !failed), "value-exactly-if-restored");
    if(got) { z_assert(zr_bulk_is(v, 3) && zr_end(), "restored-value"); z_assert(CMD(0, S("GET"), B(id, kn)) && zr_bulk_is(v, 3), "restored-value"); }
    else {
        killed = 0; outcome = 0; restore = "/elsewhere"; expect(1, 2, "missing-data", "/db/d/default/d0", 0, 0, 0);
        z_assert(CMD(0, S("GET"), B(id, kn)) && zr_bulk_is(v, 3) && zr_end(), "restored-value"); z_cover("later");
    }
    listing();
    z_cover("end");
}
// directories with long paths in the list
static void dirs(void) {
    static const uint32_t len[] = { 300, 700, 1100, 2000 }; static char ip[2100], dp[2100]; uint32_t n = len[z_choice(4, "path length")], jumps = 1 + z_choice(3, "rotations");
    children = 0;
    for(uint32_t i = 0; i < n; i++) { ip[i] = i % 240 == 0 ? '/' : 'i'; dp[i] = i % 240 == 0 ? '/' : 'd'; }
    zh_opts[4] = "--index"; zh_opts[5] = ip; zh_opts[6] = "--data"; zh_opts[7] = dp; zh_opts[8] = NULL;
    H[0].a[1] = ip; H[0].a[2] = dp;
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    for(uint32_t j = 0; j < jumps; j++) { expect(1, 4, "jump-index", 0, 0, 0, 0); expect(0, 3, "jump-data", 0, 0, 0, 0); z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); }
    all_run();
    int64_t k, a, m, x; const unsigned char *p; uint32_t l;
    z_assert(CMD(0, S("HOOKS")) && zr_array(&k) && k == nh, "hooks-listed");
    for(int i = 0; i < nh; i++) {
        z_assert(zr_array(&a) && a == 6 && zr_bulk_is(H[i].a[0], strlen(H[i].a[0])) && zr_array(&m) && m == H[i].n - 1, "hook-entry");
        for(int y = 0; y < m; y++) { z_assert(zr_bulk(&p, &l), "hook-entry"); if(i > 1 && y < 2) { const char *d = i % 2 ? dp : ip; char t[13] = "/default/i0"; t[9] = i % 2 ? 'd' : 'i'; t[10] = (char) ('0' + (i - 2) / 2 + y); z_assert(l == n + 11 && memcmp(p, d, n) == 0 && memcmp(p + n, t, 11) == 0, "hook-arguments-listed"); } }
        for(int y = 0; y < 4; y++) z_assert(zr_int(&x), "hook-entry");
    }
    z_assert(zr_end(), "hook-entry");
    z_cover("end");
}
void zmain(void) {
    children = 1;
    start();
    if(z_param("what", 0) == 0) { children = z_param("children", 1); events(z_param("ops", 2)); }
    else if(z_param("what", 0) == 1) ready();
    else if(z_param("what", 0) == 3) dirs();
    else missing();
}
