#include "model.h"
// SCAN/RSCAN: every live entry exactly once, in write order, in as many pages as time slices allow, also when
// the data set changes between pages; KEYCUR gives a cursor to start from.
static int order_of(int i) { return m_seq ? (int) zh_u64(M[i].k) + 1 : M[i].order; }
// continue from a cursor placed at position 'from' (0/1<<30: from the very start), to the end
static void walk_rest(int reverse, unsigned char *cur, uint32_t cn, int from, int maxpages) {
    int exp[MKEYS], ne = 0, at = 0;
    for(int i = 0; i < MN; i++) if(M[i].have && (reverse ? order_of(i) < from : order_of(i) > from)) {
        int j = ne++;
        while(j > 0 && (reverse ? order_of(exp[j - 1]) < order_of(i) : order_of(exp[j - 1]) > order_of(i))) { exp[j] = exp[j - 1]; j--; }
        exp[j] = i;
    }
    for(int round = 0; round < maxpages; round++) {
        const unsigned char *p; uint32_t n; int64_t a, k, l, t;
        if(cn) z_assert(reverse ? CMD(m_c, S("RSCAN"), B(cur, cn)) : CMD(m_c, z_choice(1, "x") ? S("SCANX") : S("SCAN"), B(cur, cn)), "daemon-alive");
        else z_assert(reverse ? CMD(m_c, S("RSCAN")) : CMD(m_c, S("SCANX")), "daemon-alive");
        if(at == ne) { z_assert(zr_is("-No more data\r\n"), "scan-ends-after-all-entries"); return; }
        z_assert(zr_array(&a) && a == 2 && zr_bulk(&p, &n) && n == 17, "scan-reply");
        memcpy(cur, p, n); cn = n;
        z_assert(zr_array(&k) && k > 0 && k <= ne - at, "scan-entries");
        if(k < ne - at) z_cover("paged");
        for(int64_t i = 0; i < k; i++) {
            ment_t *e = &M[exp[at++]]; mver_t *v = &e->ver[e->nv - 1];
            z_assert(zr_array(&a) && a == 3 && zr_bulk_is(e->k, e->kn), "scan-key-in-order");
            z_assert(zr_int(&l) && l == v->n && zr_int(&t) && t == v->ts, "scan-length-and-time");
        }
        z_assert(zr_end(), "scan-exact");
    }
    z_fail("scan-does-not-end");
}
void zmain(void) {
    int ops = z_param("ops", 3), seq = z_param("seq", 0), keys = z_param("keys", 3), lens = z_param("vlens", 1);
    unsigned char cur[17], v[4];
    env_reset();
    if(z_param("late", 0)) { env.now_sec = 0x7ffffffell; }      // the clock passes 2^31 meanwhile
    zh_bits = z_param("bits", 0);
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    m_init(seq);
    if(!seq) m_keys(keys, 0);
    for(int s = 0; s < ops; s++) {
        m_random_op(keys, lens, 0);
        if(z_param("jump", 0) && s < ops - 1 && z_choice(2, "jump")) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); }
    }
    int reverse = (int) z_choice(2, "reverse"); uint32_t page = z_choice(4, "page");
    env.utick = page == 1 ? 900 : page == 2 ? 600 : page == 3 ? 5000 : 0;      // time spent per clock reading: the slice ends earlier
    uint32_t how = z_choice(3, "how");
    if(how == 0) { walk_rest(reverse, cur, 0, reverse ? 1 << 30 : 0, 10); z_cover("full"); }
    else if(how == 1) {
        // first page, then something happens, then the rest
        const unsigned char *p; uint32_t n, l; int64_t a, k;
        z_assert(reverse ? CMD(0, S("RSCAN")) : CMD(0, S("SCAN")), "daemon-alive");
        if(m_entries() == 0) { z_assert(zr_is("-No more data\r\n"), "empty-scan"); z_cover("empty"); return; }
        z_assert(zr_array(&a) && a == 2 && zr_bulk(&p, &n) && n == 17, "scan-reply");
        memcpy(cur, p, 17);
        z_assert(zr_array(&k) && k > 0, "scan-entries");
        int from = 0;
        for(int64_t i = 0; i < k; i++) {
            z_assert(zr_array(&a) && a == 3 && zr_bulk(&p, &l) && zr_int(&a) && zr_int(&a), "scan-entry");
            for(int j = 0; j < MN; j++) if(M[j].have && M[j].kn == l && memcmp(M[j].k, p, l) == 0) from = order_of(j);
        }
        z_assert(from, "scan-key-known");
        uint32_t w = z_choice(4, "change");
        if(w == 0) m_random_op(keys, 1, 0);
        if(w == 1) { z_note("JUMP "); z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); }
        if(w == 2) { z_note("RESTART "); z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); }
        if(w == 3) {
            // the entry the cursor stands on is deleted or updated
            int j = 0; while(j < MN - 1 && !(M[j].have && order_of(j) == from)) j++;
            z_assume(M[j].have);
            env.now_sec++;
            if(z_choice(2, "upd")) { z_bytes(v, 1, "v"); m_set(j, v, 1); } else m_del(j);
            z_cover("cursor-entry-changed");
        }
        walk_rest(reverse, cur, 17, from, 10);
        z_cover("mutated");
    } else {
        // start from the cursor of a key
        const unsigned char *p; uint32_t n;
        if(MN == 0) z_assume(0);
        int i = MN > 1 ? (int) z_choice(MN, "from") : 0;
        z_assert(CMD(0, S("KEYCUR"), B(M[i].k, M[i].kn)), "daemon-alive");
        if(!M[i].have) { if(m_seq && M[i].dead) return; z_assert(zr_error(), "no-cursor-of-absent-key"); return; }
        z_assert(zr_bulk(&p, &n) && n == 17 && zr_end(), "keycur-reply");
        memcpy(cur, p, 17);
        int from = order_of(i);
        if(z_choice(2, "del")) { m_del(i); }
        walk_rest(reverse, cur, 17, from, 10);
        z_cover("keycur");
    }
    z_cover("end");
}
