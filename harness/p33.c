#include "model.h"
#include "libzdb.h"
int index_set_buckets_bits(uint8_t bits);
// The library as a program embeds it: its calls agree with the same model as the server, and a server started
// later on the same files, or the library after a server, finds the same.
static zdb_settings_t *st; static namespace_t *ns; static const char *nsn;
static int64_t quota; static uint64_t fsize; static int libmode;
static void lopen(void) {
    z_assert((st = zdb_initialize()) != NULL, "library-starts");
    st->datapath = "/db/d"; st->indexpath = "/db/i"; if(libmode >= 0) st->mode = (index_mode_t) libmode; if(fsize) st->datasize = fsize;
    zdb_id_set("embedded");
    z_assert(zdb_open(st) != NULL, "library-opens");
    z_assert((ns = strcmp(nsn, "default") ? namespace_get((char *) nsn) : namespace_get_default()) != NULL, "namespace-found");
}
static void (*body)(void);
static void entry(void) { lopen(); body(); if(z_param("close", 1)) zdb_close(st); env.finished = 1; }
static void session(void (*f)(void)) {
    z_reset_globals(); env_new_process(); index_set_buckets_bits(zh_bits); body = f;
    z_coro_start(entry); env.in_coro = 1; z_coro_resume(); env.in_coro = 0;
    z_assert(!env.crashed && env.finished, "session-ends"); env_close_all();
}
// one call, its status and the reply freed
static zdb_api_t *R; static int status;
static void done(zdb_api_t *r) { status = (int) r->status; z_assert(zdb_api_debug_type(r->status) != NULL, "status-has-a-name"); zdb_api_reply_free(r); }
static int failed;
static int refused(void) { return status == ZDB_API_FAILURE || status == ZDB_API_INTERNAL_ERROR; }
static int fits(ment_t *e, uint32_t n) { return !quota || m_datasize() - (e && e->have ? e->ver[e->nv - 1].n : 0) + n <= quota; }
static int same(ment_t *e, const void *v, uint32_t n) { mver_t *l = &e->ver[e->nv - 1]; return l->n == n && memcmp(l->v, v, n) == 0; }
static int faulty(uint32_t w0) { return env.fail_at >= 0 && (int) env.writes > env.fail_at && env.writes > w0; }
static void l_set(int i, const void *v, uint32_t n) {
    ment_t *e = &M[i]; uint32_t w0 = env.writes; zdb_api_buffer_t *b;
    R = zdb_api_set(ns, e->k, e->kn, (void *) v, n);
    if(R->status == ZDB_API_BUFFER) { b = R->payload; z_assert(b->size == e->kn && memcmp(b->payload, e->k, e->kn) == 0, "set-returns-key"); }
    done(R);
    if(!fits(e, n)) { z_assert(refused(), "limit-exact"); z_cover("full"); return; }
    if(m_seq && !e->have) { z_assert(status == ZDB_API_INSERT_DENIED, "set-unknown-id-refused"); return; }
    if(e->have && same(e, v, n)) { z_assert(status == ZDB_API_UP_TO_DATE, "same-value-told"); z_cover("unchanged"); return; }
    if(faulty(w0) && refused()) { failed = 1; return; }
    z_assert(status == ZDB_API_BUFFER, "set-succeeds");
    if(e->have) z_cover("updated");
    m_push(e, v, n, (uint32_t) env.now_sec);
}
static void l_new(const void *v, uint32_t n) {
    uint32_t w0 = env.writes; zdb_api_buffer_t *b; unsigned char id[8];
    if(MN == MKEYS) z_fail("harness:too-many-keys");
    R = zdb_api_set(ns, NULL, 0, (void *) v, n);
    if(R->status == ZDB_API_BUFFER) { b = R->payload; z_assert(b->size == 8, "id-is-eight-bytes"); memcpy(id, b->payload, 8); }
    done(R);
    if(!fits(NULL, n)) { z_assert(refused(), "limit-exact"); z_cover("full"); return; }
    if(faulty(w0) && refused()) { failed = 1; return; }
    z_assert(status == ZDB_API_BUFFER, "insert-succeeds");
    for(int j = 0; j < MN; j++) z_assert(memcmp(M[j].k, id, 8) != 0, "id-never-reused");
    ment_t *e = &M[MN++]; memset(e, 0, sizeof *e); memcpy(e->k, id, 8); e->kn = 8; m_push(e, v, n, (uint32_t) env.now_sec);
}
static void l_del(int i) {
    ment_t *e = &M[i]; uint32_t w0 = env.writes;
    done(zdb_api_del(ns, e->k, e->kn));
    if(!e->have) { z_assert(status == ZDB_API_NOT_FOUND || status == ZDB_API_DELETED, "del-absent-told"); return; }
    if(faulty(w0) && refused()) { failed = 1; return; }
    z_assert(status == ZDB_API_SUCCESS, "del-succeeds"); z_cover("deleted");
    e->have = 0; e->dead = 1;
}
static void l_verify(void) {
    for(int i = 0; i < MN; i++) {
        ment_t *e = &M[i]; mver_t *l = e->have ? &e->ver[e->nv - 1] : NULL; zdb_api_entry_t *x;
        R = zdb_api_get(ns, e->k, e->kn);
        if(l) {
            z_assert(R->status == ZDB_API_ENTRY, "get-finds"); x = R->payload;
            z_assert(x->key.size == e->kn && memcmp(x->key.payload, e->k, e->kn) == 0, "get-returns-key");
            z_assert(x->payload.size == l->n && memcmp(x->payload.payload, l->v, l->n) == 0, "get-returns-last-value");
        } else z_assert(R->status == ZDB_API_NOT_FOUND || R->status == ZDB_API_DELETED, "get-absent-told");
        done(R);
        done(zdb_api_exists(ns, e->k, e->kn)); z_assert(status == (l ? ZDB_API_TRUE : ZDB_API_FALSE), "exists-exact");
        done(zdb_api_check(ns, e->k, e->kn)); z_assert(l ? status == ZDB_API_TRUE : status == ZDB_API_NOT_FOUND || status == ZDB_API_DELETED, "check-exact");
    }
}
static void l_op(void) {
    unsigned char v[MVAL]; int lens = z_param("vlens", 3);
    env.now_sec++;
    if(m_seq) {
        uint32_t w = z_choice(MN ? 3 : 1, "kind");
        if(w == 0) { uint32_t n = z_choice(lens, "vlen"); m_value(v, n); z_note("NEW "); l_new(v, n); return; }
        uint32_t i = MN > 1 ? z_choice(MN, "slot") : 0;
        if(w == 1) { uint32_t n = z_choice(lens, "vlen"); m_value(v, n); z_note("UPD "); l_set(i, v, n); }
        else { z_note("DEL "); l_del(i); }
        return;
    }
    uint32_t i = z_choice(2, "slot"), op = z_choice(lens + 1, "op");
    if(op == (uint32_t) lens) { z_note("DEL "); l_del(i); return; }
    z_note("SET "); m_value(v, op); l_set(i, v, op);
}
static void ops(void) { for(int i = 0; i < z_param("ops", 2); i++) { l_op(); l_verify(); } }
static void again(void) {      // the library after the server, opened twice by the same program
    l_verify(); zdb_close(st); lopen(); l_verify(); l_op(); l_verify();
    unsigned char big[260]; memset(big, 'a', sizeof big);
    for(int k = 0; k < 3; k++) { // keys longer than a key can be
        static const uint32_t add[3] = { 256, 257, 258 }; memcpy(big, M[0].k, M[0].kn); uint32_t n = add[k];
        done(zdb_api_get(ns, big, n)); z_assert(status == ZDB_API_NOT_FOUND, "long-key-absent"); done(zdb_api_exists(ns, big, n)); z_assert(status == ZDB_API_FALSE, "long-key-absent");
        done(zdb_api_check(ns, big, n)); z_assert(status == ZDB_API_NOT_FOUND, "long-key-absent"); done(zdb_api_del(ns, big, n)); z_assert(status == ZDB_API_NOT_FOUND, "long-key-absent");
        done(zdb_api_set(ns, big, n, "x", 1)); z_assert(status != ZDB_API_BUFFER && status != ZDB_API_UP_TO_DATE, "long-key-refused");
    }
    if(!m_seq) { done(zdb_api_set(ns, big, 0, "x", 1)); z_assert(refused(), "empty-key-refused"); }
    l_verify();
}
static void server(void) {
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0); m_ns = nsn;
    if(strcmp(nsn, "default")) z_assert(CMD(0, S("SELECT"), B(nsn, strlen(nsn))) && zr_is("+OK\r\n"), "select-ok");
    m_verify(); m_scan(0, 0); m_scan(1, 0); for(int i = 0; i < MN; i++) m_history(i);
}
static void fault(void) {
    ops();
    env.fail_at = (int) env.writes + (int) z_choice(4, "point"); env.fail_sticky = (int) z_choice(2, "sticky"); env.fail_keep = (int) z_choice(2, "short") * 5;
    l_op(); env.fail_at = -1; env.fail_sticky = 0; env.fail_keep = 0;
    z_cover(failed ? "failed" : "not-reached");
    l_verify(); l_op(); l_verify();
}
// two values with the same checksum
static void alike(void) {
    unsigned char a[8], b[8]; uint32_t n = 5 + z_choice(2, "vlen");
    z_bytes(a, n, "v"); z_bytes(b, n, "v");
    if(m_seq) l_new(a, n); else l_set(0, a, n);
    z_assume(zdb_checksum_crc32(a, n) == zdb_checksum_crc32(b, n));
    z_assume(memcmp(a, b, n) != 0);
    l_set(0, b, n); l_verify();
}
// the data file of a key is not there or cannot be read
static void unreadable(void) {
    ops(); int i = (int) z_choice((uint32_t) MN, "slot"); z_assume(M[i].have); mver_t *l = &M[i].ver[M[i].nv - 1]; z_assume(l->n > 0);
    vnode_t *f = vfs_find("/db/d/default/d0"); f->size -= 1;     // the last byte of the last record
    R = zdb_api_get(ns, M[i].k, M[i].kn);
    if(R->status == ZDB_API_ENTRY) { zdb_api_entry_t *x = R->payload; z_assert(x->payload.size == l->n && memcmp(x->payload.payload, l->v, l->n) == 0, "get-returns-last-value"); z_cover("other"); done(R); done(zdb_api_check(ns, M[i].k, M[i].kn)); z_assert(status == ZDB_API_TRUE, "check-exact"); }
    else { z_assert(R->status == ZDB_API_INTERNAL_ERROR, "unreadable-told"); done(R); done(zdb_api_check(ns, M[i].k, M[i].kn)); z_assert(status == ZDB_API_INTERNAL_ERROR || status == ZDB_API_FALSE, "unreadable-is-not-intact"); z_cover("unreadable"); }
    f->size += 1; l_verify();
}
void zmain(void) {
    int seq = z_param("seq", 0), what = z_param("what", 0), own = z_param("own", 0);
    env_reset(); zh_bits = 0; nsn = own ? "n" : "default";
    m_init(seq); libmode = z_param("mixed", 0) ? -1 : seq ? ZDB_MODE_SEQUENTIAL : ZDB_MODE_KEY_VALUE;
    if(libmode >= 0) { zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; }
    if(z_param("rotate", 0)) fsize = 30 + 18 * z_choice(2, "file size");
    if(own) { // made by a server, with a limit
        z_assert(zh_boot(), "daemon-starts"); zh_connect(0); z_assert(CMD(0, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
        if(libmode < 0) z_assert(CMD(0, S("NSSET"), S("n"), S("mode"), B(seq ? "seq" : "user", seq ? 3 : 4)) && zr_is("+OK\r\n"), "nsset-ok");
        quota = z_choice(4, "limit"); char q = '0' + (char) quota; if(quota) z_assert(CMD(0, S("NSSET"), S("n"), S("maxsize"), B(&q, 1)) && zr_is("+OK\r\n"), "nsset-ok");
        zh_stop();
    }
    if(!seq) m_keys(2, 0);
    session(what == 1 ? fault : what == 2 ? alike : what == 3 ? unreadable : ops);
    if(what == 3) { z_cover("end"); return; }
    server();
    unsigned char w[1]; m_value(w, 1); env.now_sec++;
    if(!quota) { if(m_seq) m_new(w, 1); else m_set(0, w, 1); m_verify(); }
    if(fsize) { z_cover(vfs_find("/db/d/default/d1") ? "rotated" : "one file"); }
    zh_stop();
    if(what == 0) { session(again); server(); }
    z_cover("end");
}
