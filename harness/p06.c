#include "model.h"
#include "files.h"
// Data files are append-only: what was written is never modified, whatever happens later; every effective
// operation appends exactly one self-describing record, in order, with key, value, checksum and time.
#define FILES 8
static unsigned char snap[FILES][VFS_FILESIZE]; static uint32_t snapn[FILES]; static int snaphave[FILES];
typedef struct { unsigned char k[8]; uint32_t kn; unsigned char v[MVAL]; uint32_t n, ts; int del; } log_t;
static log_t L[16]; static int LN;
static void record(const ment_t *e, int del) {
    if(LN == 16) z_fail("harness:log");
    log_t *l = &L[LN++];
    memset(l, 0, sizeof *l);
    memcpy(l->k, e->k, e->kn); l->kn = e->kn; l->del = del; l->ts = (uint32_t) env.now_sec;
    if(!del) { const mver_t *v = &e->ver[e->nv - 1]; memcpy(l->v, v->v, v->n); l->n = v->n; l->ts = v->ts; }
}
static void unchanged(int keep) {
    for(int f = 0; f < FILES; f++) {
        vnode_t *d = f_data("default", f);
        if(snaphave[f]) {
            z_assert(d != NULL, "data-file-never-removed");
            z_assert(d->size >= snapn[f], "data-file-never-shrinks");
            z_assert(memcmp(d->data, snap[f], snapn[f]) == 0, "data-file-content-never-modified");
        }
        if(d && keep) { snaphave[f] = 1; snapn[f] = d->size; memcpy(snap[f], d->data, d->size); }
    }
}
static void walk(void) {
    int at = 0;
    for(int f = 0; f < FILES; f++) {
        vnode_t *d = f_data("default", f); uint32_t o = DHEAD, prev = 0; drec_t r; int n = 0;
        if(!d) continue;
        z_assert(d->size >= DHEAD && memcmp(d->data, "DAT0", 4) == 0 && zh_u32(d->data + 24) == (uint32_t) f, "data-file-header");
        while(f_next(d, &o, &r)) {
            z_assert(at < LN, "no-record-without-operation");
            log_t *l = &L[at++];
            z_assert(r.idlen == l->kn && memcmp(r.id, l->k, l->kn) == 0, "record-key");
            z_assert((r.flags & 1) == (uint32_t) l->del, "record-deletion-flag");
            z_assert(r.datalen == l->n && memcmp(r.data, l->v, l->n) == 0, "record-value");
            z_assert(r.ts == l->ts, "record-timestamp");
            if(!l->del) z_assert(r.crc == ref_crc(l->v, l->n), "record-checksum");
            if(n) z_assert(r.previous == prev, "record-links-to-the-one-before");
            prev = r.at; n++;
        }
    }
    z_assert(at == LN, "every-operation-recorded");
}
static void op(int keys, int lens) {
    unsigned char v[MVAL];
    env.now_sec++;
    uint32_t kinds = m_seq ? 3 : 2, k = z_choice(kinds, "kind");
    if(k == 2) { uint32_t n = z_choice(lens, "vlen"); m_value(v, n); z_note("NEW "); int i = m_new(v, n); record(&M[i], 0); return; }
    if(m_seq && MN == 0) z_assume(0);
    int i = m_seq ? (MN > 1 ? z_choice(MN, "slot") : 0) : (keys > 1 ? z_choice(keys, "slot") : 0);
    if(k == 0) {
        uint32_t n = z_choice(lens, "vlen"); m_value(v, n);
        uint32_t ex = z_param("stamp", 0) ? z_choice(2, "explicit") : 0;
        uint32_t ts = ex ? 1234567890u : (uint32_t) env.now_sec;
        z_note("SET "); if(m_set_ts(i, v, n, ts, ex)) record(&M[i], 0);
    }
    else { int had = M[i].have; z_note("DEL "); m_del(i); if(had) record(&M[i], 1); }
}
void zmain(void) {
    int ops = z_param("ops", 3), seq = z_param("seq", 0), keys = z_param("keys", 2), lens = z_param("vlens", 2);
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(!seq) m_keys(keys, 0);
    unchanged(1);
    for(int s = 0; s < ops; s++) {
        op(keys, lens);
        unchanged(1);
        if(s == ops - 1) break;
        switch(z_choice(z_param("between", 4), "between")) {
            case 1: z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); z_cover("jumped"); break;
            case 2: z_note("RESTART "); z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); z_cover("restarted"); break;
            case 3: z_note("RELOAD "); z_assert(CMD(0, S("RELOAD"), S("default")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); break;
        }
        unchanged(1);
    }
    for(int i = 0; i < MN; i++) m_read(i);
    unchanged(0);
    walk();
    z_cover("end");
}
