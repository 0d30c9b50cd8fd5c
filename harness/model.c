#include "model.h"
ment_t M[MKEYS];
int MN, m_seq, m_c, m_noabsent;
static int m_order;
const char *m_ns = "default";

void m_init(int seq) { memset(M, 0, sizeof M); MN = 0; m_seq = seq; m_c = 0; m_order = 0; m_ns = "default"; }

static struct { ment_t M[MKEYS]; int MN, seq, c, order; const char *ns; } m_saved[3];
static int m_cur;
void m_switch(int n) {
    if(n == m_cur) return;
    memcpy(m_saved[m_cur].M, M, sizeof M); m_saved[m_cur].MN = MN; m_saved[m_cur].seq = m_seq; m_saved[m_cur].c = m_c; m_saved[m_cur].order = m_order; m_saved[m_cur].ns = m_ns;
    memcpy(M, m_saved[n].M, sizeof M); MN = m_saved[n].MN; m_seq = m_saved[n].seq; m_c = m_saved[n].c; m_order = m_saved[n].order; m_ns = m_saved[n].ns;
    m_cur = n;
}
void m_keys(int n, int lens) {
    MN = n;
    for(int i = 0; i < n; i++) {
        M[i].kn = 1;
        if(lens) M[i].kn = 1 + z_choice(2, "keylen");
        z_bytes(M[i].k, M[i].kn, "key");
        for(int j = 0; j < i; j++) if(M[j].kn == M[i].kn) z_assume(memcmp(M[j].k, M[i].k, M[i].kn) != 0);
    }
}
void m_value(unsigned char *v, uint32_t n) { z_bytes(v, n, "v"); }

static int same_as_current(ment_t *e, const void *v, uint32_t n) {
    if(!e->have) return 0;
    mver_t *l = &e->ver[e->nv - 1];
    return l->n == n && memcmp(l->v, v, n) == 0;
}
void m_push(ment_t *e, const void *v, uint32_t n, uint32_t ts) {
    if(!e->have) e->nv = 0;
    if(e->nv == MVERS) z_fail("harness:too-many-versions");
    mver_t *l = &e->ver[e->nv++];
    memcpy(l->v, v, n); l->n = n; l->ts = ts;
    e->have = 1; e->order = ++m_order;
}
int m_set_ts(int i, const void *v, uint32_t n, uint32_t ts, int explicit_ts) {
    ment_t *e = &M[i];
    if(explicit_ts) {
        char t[16]; int o = 0, k = 0; char d[16]; uint32_t x = ts;
        do { d[k++] = '0' + x % 10; x /= 10; } while(x);
        while(k) t[o++] = d[--k];
        z_assert(CMD(m_c, S("SET"), B(e->k, e->kn), B(v, n), B(t, o)), "daemon-alive");
    } else z_assert(CMD(m_c, S("SET"), B(e->k, e->kn), B(v, n)), "daemon-alive");
    if(m_seq && !e->have) { z_assert(zr_error(), "set-unknown-id-refused"); return 0; }
    if(same_as_current(e, v, n)) { z_assert(zr_nil() && zr_end(), "set-same-value-ignored"); z_cover("unchanged"); return 0; }
    z_assert(zr_bulk_is(e->k, e->kn) && zr_end(), "set-returns-key");
    if(e->have) z_cover("updated");
    m_push(e, v, n, ts);
    return 1;
}
int m_set(int i, const void *v, uint32_t n) { return m_set_ts(i, v, n, (uint32_t) env.now_sec, 0); }
int m_new(const void *v, uint32_t n) {
    const unsigned char *p; uint32_t l;
    if(MN == MKEYS) z_fail("harness:too-many-keys");
    z_assert(CMD(m_c, S("SET"), B("", 0), B(v, n)), "daemon-alive");
    z_assert(zr_bulk(&p, &l) && zr_end(), "insert-returns-id");
    z_assert(l == 8, "id-is-eight-bytes");
    for(int j = 0; j < MN; j++) z_assert(memcmp(M[j].k, p, 8) != 0, "id-never-reused");
    if(MN) z_assert(zh_u64(p) > zh_u64(M[MN - 1].k), "ids-increase");
    ment_t *e = &M[MN++];
    memset(e, 0, sizeof *e);
    memcpy(e->k, p, 8); e->kn = 8;
    m_push(e, v, n, (uint32_t) env.now_sec);
    return MN - 1;
}
void m_del(int i) {
    ment_t *e = &M[i];
    z_assert(CMD(m_c, S("DEL"), B(e->k, e->kn)), "daemon-alive");
    if(e->have) { z_assert(zr_is("+OK\r\n"), "del-existing-ok"); z_cover("deleted"); e->dead = 1; }
    else z_assert(zr_error(), "del-absent-error");
    e->have = 0;
}
void m_read_value(int i) {
    ment_t *e = &M[i];
    z_assert(CMD(m_c, S("GET"), B(e->k, e->kn)), "daemon-alive");
    if(e->have) z_assert(zr_bulk_is(e->ver[e->nv - 1].v, e->ver[e->nv - 1].n) && zr_end(), "get-returns-last-value");
    else z_assert(zr_nil() && zr_end(), "get-absent-is-nil");
}
void m_read(int i) {
    ment_t *e = &M[i]; int64_t n;
    mver_t *l = e->have ? &e->ver[e->nv - 1] : NULL;
    z_assert(CMD(m_c, S("GET"), B(e->k, e->kn)), "daemon-alive");
    if(l) z_assert(zr_bulk_is(l->v, l->n) && zr_end(), "get-returns-last-value");
    else z_assert(zr_nil() && zr_end(), "get-absent-is-nil");
    z_assert(CMD(m_c, S("EXISTS"), B(e->k, e->kn)), "daemon-alive");
    z_assert(zr_int(&n) && n == e->have && zr_end(), "exists-exact");
    z_assert(CMD(m_c, S("LENGTH"), B(e->k, e->kn)), "daemon-alive");
    if(l) z_assert(zr_int(&n) && n == l->n && zr_end(), "length-exact");
    else z_assert(zr_nil() && zr_end(), "length-absent-nil");
    z_assert(CMD(m_c, S("KEYTIME"), B(e->k, e->kn)), "daemon-alive");
    if(l) z_assert(zr_int(&n) && n == l->ts && zr_end(), "keytime-exact");
    else z_assert(zr_nil() && zr_end(), "keytime-absent-nil");
    z_assert(CMD(m_c, S("CHECK"), B(e->k, e->kn)), "daemon-alive");
    if(l) z_assert(zr_int(&n) && n == 1 && zr_end(), "check-intact");
    else z_assert(zr_nil() && zr_end(), "check-absent-nil");
}
int64_t m_entries(void) { int64_t r = 0; for(int i = 0; i < MN; i++) r += M[i].have; return r; }
int64_t m_datasize(void) { int64_t r = 0; for(int i = 0; i < MN; i++) if(M[i].have) r += M[i].ver[M[i].nv - 1].n; return r; }
int m_info(const char *name, int64_t *v) {
    const unsigned char *p; uint32_t n, l = strlen(name);
    z_assert(CMD(m_c, S("NSINFO"), B(m_ns, strlen(m_ns))), "daemon-alive");
    z_assert(zr_bulk(&p, &n) && zr_end(), "nsinfo-bulk");
    for(uint32_t i = 0; i + l + 2 < n; i++) if((i == 0 || p[i - 1] == '\n') && memcmp(p + i, name, l) == 0 && p[i + l] == ':') {
        uint64_t r = 0;
        for(i = i + l + 2; i < n && p[i] >= '0' && p[i] <= '9'; i++) r = r * 10 + (p[i] - '0');
        *v = (int64_t) r; return 1;
    }
    return 0;
}
void m_verify(void) {
    int64_t n;
    for(int i = 0; i < MN; i++) m_read(i);
    if(MN >= 2) {
        z_assert(CMD(m_c, S("MGET"), B(M[1].k, M[1].kn), B(M[0].k, M[0].kn)), "daemon-alive");
        z_assert(zr_array(&n) && n == 2, "mget-array");
        for(int i = 1; i >= 0; i--) z_assert(M[i].have ? zr_bulk_is(M[i].ver[M[i].nv - 1].v, M[i].ver[M[i].nv - 1].n) : zr_nil(), "mget-value");
        z_assert(zr_end(), "mget-exact");
    }
    z_assert(CMD(m_c, S("DBSIZE")), "daemon-alive");
    z_assert(zr_int(&n) && n == m_entries() && zr_end(), "dbsize-exact");
    z_assert(m_info("entries", &n) && n == m_entries(), "nsinfo-entries-exact");
    z_assert(m_info("data_size_bytes", &n) && n == m_datasize(), "nsinfo-datasize-exact");
}
// walk with SCAN or RSCAN and compare with the live entries in write (id) order
void m_scan(int reverse, int page) {
    int exp[MKEYS], ne = 0;
    for(int i = 0; i < MN; i++) if(M[i].have) {
        int j = ne++;
        while(j > 0 && (m_seq ? zh_u64(M[exp[j - 1]].k) > zh_u64(M[i].k) : M[exp[j - 1]].order > M[i].order)) { exp[j] = exp[j - 1]; j--; }
        exp[j] = i;
    }
    int at = 0; unsigned char cur[64]; uint32_t cn = 0;
    int utick = env.utick;
    env.utick = page == 1 ? 900 : page == 2 ? 600 : 0;
    for(int round = 0; round < 12; round++) {
        const unsigned char *p; uint32_t n; int64_t a, k, l, t;
        if(cn) z_assert(reverse ? CMD(m_c, S("RSCAN"), B(cur, cn)) : CMD(m_c, S("SCAN"), B(cur, cn)), "daemon-alive");
        else z_assert(reverse ? CMD(m_c, S("RSCAN")) : CMD(m_c, S("SCAN")), "daemon-alive");
        if(at == ne) {
            z_assert(zr_is("-No more data\r\n"), "scan-ends-after-all-entries");
            env.utick = utick;
            return;
        }
        z_assert(zr_array(&a) && a == 2, "scan-reply");
        z_assert(zr_bulk(&p, &n) && n == 17, "scan-cursor");
        memcpy(cur, p, n); cn = n;
        z_assert(zr_array(&k) && k > 0, "scan-entries");
        z_assert(k <= ne - at, "scan-no-extra-entries");
        if(k < ne - at) z_cover("paged");
        for(int64_t i = 0; i < k; i++) {
            ment_t *e = &M[exp[reverse ? ne - 1 - at : at]];
            mver_t *v = &e->ver[e->nv - 1];
            at++;
            z_assert(zr_array(&a) && a == 3, "scan-entry");
            z_assert(zr_bulk_is(e->k, e->kn), "scan-key-in-order");
            z_assert(zr_int(&l) && l == v->n, "scan-length");
            z_assert(zr_int(&t) && t == v->ts, "scan-timestamp");
        }
        z_assert(zr_end(), "scan-exact");
    }
    z_fail("scan-does-not-end");
}
void m_history(int i) {
    ment_t *e = &M[i]; unsigned char cur[8]; int have = 0;
    if(!e->have) {
        z_assert(CMD(m_c, S("HISTORY"), B(e->k, e->kn)), "daemon-alive");
        z_assert(zr_error(), "history-absent-error");
        return;
    }
    for(int v = e->nv - 1; v >= 0; v--) {
        const unsigned char *p; uint32_t n; int64_t a; char ts[16]; int o = 0, k = 0; char d[16]; uint32_t x = e->ver[v].ts;
        if(have) z_assert(CMD(m_c, S("HISTORY"), B(e->k, e->kn), B(cur, 8)), "daemon-alive");
        else z_assert(CMD(m_c, S("HISTORY"), B(e->k, e->kn)), "daemon-alive");
        z_assert(zr_array(&a) && a == 3, "history-reply");
        if(v > 0) { z_assert(zr_bulk(&p, &n) && n == 8, "history-older-cursor"); memcpy(cur, p, 8); have = 1; z_cover("older-version"); }
        else z_assert(zr_nil(), "history-ends-at-oldest");
        do { d[k++] = '0' + x % 10; x /= 10; } while(x);
        while(k) ts[o++] = d[--k];
        z_assert(zr_bulk_is(ts, o), "history-timestamp");
        z_assert(zr_bulk_is(e->ver[v].v, e->ver[v].n) && zr_end(), "history-payload");
    }
}
int m_random_op(int nkeys, int lens, int ops) {
    unsigned char v[MVAL];
    (void) ops;
    env.now_sec++;
    if(m_seq) {
        // insert, or update/delete one of the ids given out so far
        uint32_t w = z_choice(1 + (MN ? 2 : 0), "kind");
        if(w == 0) { if(MN == MKEYS) return 0; uint32_t n = z_choice(lens, "vlen"); m_value(v, n); z_note("NEW "); m_new(v, n); return 1; }
        uint32_t i = MN > 1 ? z_choice(MN, "slot") : 0;
        if(w == 1) { uint32_t n = z_choice(lens, "vlen"); m_value(v, n); z_note("UPD "); m_set(i, v, n); }
        else { z_note("DEL "); m_del(i); }
        return 1;
    }
    uint32_t i = nkeys > 1 ? z_choice(nkeys, "slot") : 0, op = z_choice(lens + 1, "op");
    if(op == (uint32_t) lens) { z_note("DEL "); m_del(i); return 1; }
    z_note("SET "); m_value(v, op); m_set(i, v, op);
    return 1;
}
