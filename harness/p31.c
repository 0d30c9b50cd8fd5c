#include "model.h"
#include "files.h"
// What the namespaces and the server report about themselves is what is there.
static int admin = 1, chk = 3;              // client which asks
static const char *name = "n";
static int set_public, set_worm, set_locked, set_pass; static uint64_t set_max;
static const char *mode; static int rot; static uint32_t unit; static int failed_i, failed_d; static int64_t failed_at;
static const unsigned char *rep; static uint32_t repn;
// value of a field, which is there exactly once (NULL: it is not there)
static const char *field(const char *f, uint32_t *n) {
    uint32_t l = strlen(f); const char *v = NULL;
    for(uint32_t i = 0; i < repn; ) {
        uint32_t e = i; while(e < repn && rep[e] != '\n') e++;
        if(e - i > l + 1 && memcmp(rep + i, f, l) == 0 && rep[i + l] == ':' && rep[i + l + 1] == ' ') { z_assert(v == NULL, "field-once"); v = (const char *) rep + i + l + 2; *n = e - i - l - 2; }
        i = e + 1;
    }
    return v;
}
static void is(const char *f, const char *want) {
    uint32_t n; const char *v = field(f, &n);
    z_assert(v != NULL, "field-present"); z_assert(n == strlen(want) && memcmp(v, want, n) == 0, "field-exact");
}
static void num(const char *f, uint64_t want) { char t[24]; sprintf(t, "%lu", want); is(f, t); }
static void absent(const char *f) { uint32_t n; z_assert(field(f, &n) == NULL, "field-only-for-administrators"); }
static void mb(const char *f, uint64_t v, double by) { char t[40]; sprintf(t, "%.2f", v / by); is(f, t); }
static void ask(int c, const char *ns, uint32_t n) { z_assert(CMD(c, S("NSINFO"), B(ns, n)) && zr_bulk(&rep, &repn) && zr_end(), "report-well-formed"); }
static void fs(void) {
    char t[24]; uint64_t d = (uint64_t) env.fs_frsize * env.fs_bavail[0], i = (uint64_t) env.fs_frsize * env.fs_bavail[1];
    num("data_disk_freespace_bytes", d); num("index_disk_freespace_bytes", i); mb("data_disk_freespace_mb", d, 1048576.0); mb("index_disk_freespace_mb", i, 1048576.0); (void) t;
}
static uint64_t next_id; static int unchanged;
static uint64_t index_size(void) { uint64_t s = 0; for(int i = 0; i < MN; i++) if(M[i].have) s += unit + M[i].kn; return s; }
static void look(int c, int adm) {
    uint32_t w = env.writes + env.metas; uint32_t n; char t[64];
    ask(c, name, strlen(name));
    z_assert(repn > 12 && memcmp(rep, "# namespace\n", 12) == 0, "report-well-formed");
    is("name", name); num("entries", (uint64_t) m_entries());
    is("public", set_public ? "yes" : "no"); is("worm", set_worm ? "yes" : "no"); is("locked", set_locked ? "yes" : "no"); is("password", set_pass ? "yes" : "no");
    uint64_t size = (uint64_t) m_datasize();
    num("data_size_bytes", size); mb("data_size_mb", size, 1048576.0); num("data_limits_bytes", set_max);
    if(set_max) num("space_available", set_max > size ? set_max - size : 0); else z_assert(field("space_available", &n) == NULL, "field-exact");
    is("mode", mode);
    const char *v = field("index_size_bytes", &n); z_assert(v != NULL, "field-present");
    if(!unit && m_entries()) { uint64_t s = 0; for(uint32_t i = 0; i < n; i++) s = s * 10 + (uint64_t) (v[i] - '0'); for(int i = 0; i < MN; i++) if(M[i].have) s -= M[i].kn; z_assert(s % (uint64_t) m_entries() == 0, "field-exact"); unit = (uint32_t) (s / (uint64_t) m_entries()); z_assert(unit > 0 && unit < 512, "field-exact"); }
    num("index_size_bytes", index_size()); mb("index_size_kb", index_size(), 1024.0);
    num("stats_data_io_errors", (uint64_t) failed_d); num("stats_index_io_errors", (uint64_t) failed_i);
    num("stats_data_io_error_last", failed_d ? (uint64_t) failed_at : 0); num("stats_index_io_error_last", failed_i ? (uint64_t) failed_at : 0);
    num("stats_data_faults", 0); num("stats_index_faults", 0);
    fs();
    if(adm) {
        char d[64]; sprintf(d, "/db/d/%s", name); is("data_path", d); sprintf(d, "/db/d/%s/d%d", name, rot); is("data_active", d);
        sprintf(d, "/db/i/%s", name); is("index_path", d); sprintf(d, "/db/i/%s/i%d", name, rot); is("index_active", d);
        num("data_current_id", (uint64_t) rot); num("data_current_offset", f_data(name, rot)->size);
    } else { absent("data_path"); absent("data_active"); absent("index_path"); absent("index_active"); z_cover("not-administrator"); }
    absent("password_raw");
    if(m_seq) { // the next identifier, byte by byte
        v = field("next_internal_id", &n); z_assert(v != NULL && n >= 10 && v[0] == '0' && v[1] == 'x', "field-present"); uint64_t x = 0;
        for(uint32_t i = 2; i < n; i++) x = x * 16 + (uint64_t) (v[i] <= '9' ? v[i] - '0' : v[i] - 'a' + 10);
        uint64_t id = 0; for(int i = 0; i < 8; i++) id |= ((x >> (8 * (7 - i))) & 0xff) << (8 * i);
        for(int i = 0; i < MN; i++) z_assert(zh_u64(M[i].k) < id, "next-identifier");
        if(unchanged) z_assert(id == next_id, "next-identifier"); next_id = id; unchanged = 1;
    } else z_assert(field("next_internal_id", &n) != NULL, "field-present");
    z_assert(env.writes + env.metas == w, "reading-changes-nothing"); (void) t;
}
static void list(int nn, const char **ns) {
    int64_t k; const unsigned char *p; uint32_t m; int seen[8] = { 0 };
    z_assert(CMD(chk, S("NSLIST")) && zr_array(&k) && k == nn, "list-exact");
    for(int i = 0; i < nn; i++) { z_assert(zr_bulk(&p, &m), "list-exact"); int f = -1; for(int j = 0; j < nn; j++) if(strlen(ns[j]) == m && memcmp(ns[j], p, m) == 0) f = j; z_assert(f >= 0 && !seen[f], "list-exact"); seen[f] = 1; }
    z_assert(zr_end(), "list-exact");
}
static void all(void) {
    int64_t n; look(chk, admin);
    z_assert(CMD(0, S("DBSIZE")) && zr_int(&n) && n == m_entries() && zr_end(), "dbsize-exact");
    ask(chk, "default", 7); num("entries", 0); num("data_size_bytes", 0); num("index_size_bytes", 0); is("name", "default"); is("password", "no"); is("worm", "no"); is("locked", "no"); num("data_limits_bytes", 0); num("stats_data_io_errors", 0); num("stats_index_io_errors", 0);
}
static void put(int i, const void *v, uint32_t n) { if(m_seq && (i >= MN || !M[i].have)) { z_assume(MN < 4); int k = m_new(v, n); z_assert(zh_u64(M[k].k) == next_id, "next-identifier"); unchanged = 0; z_cover("announced"); return; }
    unchanged = 0; m_set(i, v, n); }
static void op(void) {
    unsigned char v[8]; env.now_sec++;
    switch(z_choice((uint32_t) z_param("kinds", 6), "op")) {
    case 0: z_bytes(v, 3, "v"); put(0, v, 3); break;
    case 1: z_bytes(v, 1, "v"); put(1, v, z_choice(2, "len")); break;
    case 2: { int i = (int) z_choice(2, "slot"); z_assume(i < MN); m_del(i); break; }
    case 3: z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); rot++; break;
    case 4: z_assert(CMD(2, S("RELOAD"), S("n")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); if(failed_i || failed_d) failed_i = failed_d = 0; break;
    case 5: v[0] = 'p'; put(0, v, 3); break;
    }
}
static void nsset(const char *p, const char *v) { z_assert(CMD(2, S("NSSET"), S("n"), B(p, strlen(p)), B(v, strlen(v))) && zr_is("+OK\r\n"), "nsset-ok"); }
static void setting(void) {
    switch(z_choice(6, "setting")) {
    case 0: { static const char *m[] = { "5", "1", "1000000", "4294967296", "18446744073709551" }; uint32_t k = z_choice(5, "maxsize"); nsset("maxsize", m[k]); set_max = strtoull(m[k], NULL, 10); break; }
    case 1: nsset("password", "secret"); set_pass = 1; if(z_choice(2, "clear")) { nsset("password", "*"); set_pass = 0; } break;
    case 2: nsset("public", "0"); set_public = 0; if(z_choice(2, "again")) { nsset("public", "1"); set_public = 1; } break;
    case 3: nsset("worm", "1"); set_worm = 1; break;
    case 4: nsset("lock", "1"); set_locked = 1; if(z_choice(2, "unlock")) { nsset("lock", "0"); set_locked = 0; } break;
    case 5: nsset("maxsize", "7"); nsset("maxsize", "0"); set_max = 0; break;
    }
}
static void connect_all(void) {
    zh_connect(0); zh_connect(2); zh_connect(3);
    if(z_param("admin", 0)) { z_assert(CMD(2, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok"); z_assert(CMD(0, S("AUTH"), S("root")) && zr_is("+OK\r\n"), "auth-ok"); }
}
static void sel(int c) { z_assert(set_pass ? CMD(c, S("SELECT"), S("n"), S("secret")) : CMD(c, S("SELECT"), S("n")), "daemon-alive"); z_assert(zr_is("+OK\r\n"), "select-ok"); }
// counters of the server
static uint64_t done, failed, denied, rx, tx, clients_, wd, wi; static int64_t booted;
static uint64_t val(const char *f) { uint32_t n; const char *v = field(f, &n); uint64_t x = 0; z_assert(v != NULL && n > 0, "field-present"); for(uint32_t i = 0; i < n; i++) { z_assert(v[i] >= '0' && v[i] <= '9', "field-exact"); x = x * 10 + (uint64_t) (v[i] - '0'); } return x; }
static uint32_t digits(uint64_t v) { uint32_t n = 1; while(v >= 10) { v /= 10; n++; } return n; }
static int sendv(int c, int argc, const zarg_t *a) {
    rx += 3 + digits((uint64_t) argc); for(int i = 0; i < argc; i++) rx += 5 + digits(a[i].n) + a[i].n;
    int r = zh_cmdv(c, argc, a); tx += zr.n; return r;
}
#define REQ(c, ...) z_assert(sendv((c), (int) (sizeof((zarg_t[]) { __VA_ARGS__ }) / sizeof(zarg_t)), (zarg_t[]) { __VA_ARGS__ }), "daemon-alive")
static void info(int c) {
    uint64_t before = tx; done++;
    REQ(c, S("INFO")); z_assert(zr_bulk(&rep, &repn) && zr_end(), "report-well-formed");
    num("commands_executed", done); num("commands_failed", failed); num("commands_unauthorized", denied); num("clients_lifetime", clients_);
    num("network_rx_bytes", rx); num("network_tx_bytes", before); mb("network_rx_mb", rx, 1048576.0); mb("network_tx_mb", before, 1048576.0);
    num("boot_time", (uint64_t) booted); num("uptime", (uint64_t) (env.now_sec - booted)); num("sequential_key_size", 8); is("server_name", "0-db (zdb)");
    num("index_disk_write_failed", 0); num("data_disk_write_failed", 0); num("index_disk_read_failed", 0); num("data_disk_read_failed", 0);
    num("data_disk_write_bytes", env.wrote[0] - wd); num("index_disk_write_bytes", env.wrote[1] - wi); mb("data_disk_write_mb", env.wrote[0] - wd, 1048576.0);
}
static void counters(int ops, int seq) {
    clients_ = 3; rx = tx = 0;
    if(z_param("admin", 0)) { rx = 2 * (4 + 5 + 1 + 4 + 5 + 1 + 4); tx = 10; done = 2; }
    // what starting wrote is counted as reported at first
    done++; REQ(2, S("INFO")); z_assert(zr_bulk(&rep, &repn), "report-well-formed"); done--; rx -= 14; uint64_t last = zr.n; tx -= last;
    wd = env.wrote[0] - val("data_disk_write_bytes"); wi = env.wrote[1] - val("index_disk_write_bytes"); done++; rx += 14; tx += last;
    for(int i = 0; i < ops; i++) {
        unsigned char v[4]; z_bytes(v, 4, "v"); env.now_sec += 7; int c = (int) z_choice(2, "client") ? 3 : 0;
        switch(z_choice(8, "request")) {
        case 0: REQ(c, S("PING")); done++; break;
        case 1: if(seq) REQ(c, S("SET"), S(""), B(v, 4)); else REQ(c, S("SET"), B(v, 1), B(v + 1, 3)); done++; z_assert(!zr_error(), "set-ok"); z_cover("written"); break;
        case 2: REQ(c, S("DEL"), B(v, 1)); done++; break;
        case 3: REQ(c, S("GET"), B(v, 1)); done++; break;
        case 4: REQ(c, S("NOTHING"), B(v, 2)); failed++; z_assert(zr_error(), "refused"); break;
        case 5: { int ok = c == 0 || !z_param("admin", 0); REQ(c, S("NSNEW"), B(v, 0), S("x")); if(!ok) { denied++; z_cover("denied"); } done++; break; }
        case 6: zh_connect(5); clients_++; z_assert(zh_run(), "daemon-alive"); REQ(5, S("TIME")); done++; break;
        case 7: zh_feed(c, "*1\r\n$4\r\nPI", 10); rx += 10; z_assert(zh_run(), "daemon-alive"); conns[c].txlimit = 3; zh_feed(c, "NG\r\n", 4); rx += 4; z_assert(zh_run(), "daemon-alive"); conns[c].txlimit = -1; conns[c].out_ready = 1; z_assert(zh_run(), "daemon-alive"); zr_take(c); z_assert(zr_is("+PONG\r\n"), "answered"); tx += 7; done++; z_cover("in-parts"); break;
        }
        info((int) z_choice(2, "asks") ? 3 : 2);
    }
    z_cover("end");
}
void zmain(void) {
    int ops = z_param("ops", 2), seq = z_param("seq", 0), what = z_param("what", 0);
    env_reset(); zh_bits = 0; int o = 0; set_public = 1;
    if(z_param("admin", 0)) { zh_opts[o++] = "--admin"; zh_opts[o++] = "root"; admin = 0; }
    if(!z_param("mix", 0)) { zh_opts[o++] = "--mode"; zh_opts[o++] = seq ? "seq" : "user"; } zh_opts[o] = NULL;
    env.fs_bsize = 4096; env.fs_frsize = 4096; env.fs_bavail[0] = 5000; env.fs_bavail[1] = 70;
    if(what == 0 && z_choice(2, "blocks")) { env.fs_bsize = 1 << 20; env.fs_bavail[0] = 3000000; }
    booted = env.now_sec; z_assert(zh_boot(), "daemon-starts"); connect_all();
    if(what == 2) { counters(ops, seq); return; }
    static const char *ns[] = { "default", "n", "o" };
    z_assert(CMD(2, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    if(z_param("mix", 0)) nsset("mode", seq ? "seq" : "user");
    list(2, ns); sel(0);
    mode = seq ? "sequential" : "userkey"; m_init(seq); m_ns = "n"; m_c = 0;
    if(!seq) { MN = 2; M[0].kn = 1; M[1].kn = 3; z_bytes(M[0].k, 1, "k"); z_bytes(M[1].k, 3, "k"); }
    all();
    if(what == 1) { // a write which fails, and only this one, is counted
        unsigned char v[3]; z_bytes(v, 3, "v"); put(0, v, 3); all();
        env.now_sec += 5; env.fail_at = (int) env.writes + (int) z_choice(5, "fail"); env.fail_keep = 0; env.fail_errno = 28; 
        uint32_t before = env.writes;
        int k = (int) z_choice(3, "op"); v[0] ^= 1;
        if(k == 0) z_assert(CMD(0, S("SET"), B(M[0].k, M[0].kn), B(v, 3)), "daemon-alive"); else if(k == 1) z_assert(seq ? CMD(0, S("SET"), S(""), B(v, 2)) : CMD(0, S("SET"), B(M[1].k, 3), B(v, 2)), "daemon-alive"); else z_assert(CMD(0, S("DEL"), B(M[0].k, M[0].kn)), "daemon-alive");
        int hit = env.fail_at >= (int) before && env.fail_at < (int) env.writes; int64_t e = 0; uint32_t n;
        env.fail_at = -1; env.now_sec += 5;
        ask(chk, "n", 1); const char *a = field("stats_data_io_errors", &n); z_assert(a && n == 1, "field-present"); const char *b = field("stats_index_io_errors", &n); z_assert(b && n == 1, "field-present");
        z_assert((a[0] - '0') + (b[0] - '0') == hit, "failures-counted"); e = a[0] == '1'; (void) e;
        uint64_t when = (uint64_t) env.now_sec - 5; num("stats_data_io_error_last", a[0] == '1' ? when : 0); num("stats_index_io_error_last", b[0] == '1' ? when : 0);
        int ci = b[0] == '1', cd = a[0] == '1';
        ask(chk, "default", 7); num("stats_data_io_errors", 0); num("stats_index_io_errors", 0);
        z_assert(CMD(0, S("INFO")) && zr_bulk(&rep, &repn), "report-well-formed"); num("index_disk_write_failed", (uint64_t) ci); num("data_disk_write_failed", (uint64_t) cd); num("index_disk_read_failed", 0); num("data_disk_read_failed", 0);
        if(hit) z_cover(ci ? "index-failure" : "data-failure"); z_cover("end"); return;
    }
    for(int i = 0; i < ops; i++) { op(); all(); }
    if(z_choice(2, "removed")) { z_assert(CMD(2, S("NSNEW"), S("o")) && zr_is("+OK\r\n"), "nsnew-ok"); list(3, ns); z_assert(CMD(2, S("NSDEL"), S("o")) && zr_is("+OK\r\n"), "nsdel-ok"); list(2, ns); }
    setting(); all();
    if(z_choice(2, "restart")) { set_locked = 0; z_assert(zh_boot(), "daemon-restarts"); connect_all(); list(2, ns); sel(0); m_c = 0; z_cover("restarted"); all(); }
    z_cover("end");
}
