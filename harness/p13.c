#include "model.h"
// Locked, frozen, write-once and read-only namespaces refuse exactly the operations they should, without effect.
enum { NONE, LOCK, FREEZE, WORM, READONLY };
static unsigned char cur[17], hcur[8]; static int have_cur, have_hcur;
static int prop_set(const char *p, const char *v) { return CMD(3, S("NSSET"), S("n"), B(p, strlen(p)), B(v, strlen(v))) && zr_is("+OK\r\n"); }
static void set_state(int st, int on) {
    const char *v = on ? "1" : "0";
    if(st == LOCK) z_assert(prop_set("lock", v), "nsset-ok");
    if(st == FREEZE) z_assert(prop_set("freeze", v), "nsset-ok");
    if(st == WORM) z_assert(prop_set("worm", v), "nsset-ok");
    if(st == READONLY) {
        if(on) z_assert(CMD(m_c, S("SELECT"), S("n")) && zr_is("+OK\r\n"), "public-select-ok");
        else z_assert(CMD(m_c, S("SELECT"), S("n"), S("pw")) && zr_is("+OK\r\n"), "select-ok");
    }
}
#define HAS(x) (st & (1 << (x)))   // st: the states which apply
static void write_op(int st) {
    uint8_t v = z_u8("w"); uint32_t vn = z_param("both", 0) ? 1 : z_choice(2, "vlen");
    int deny = HAS(LOCK) || HAS(FREEZE) || HAS(READONLY), worm = HAS(WORM) && !deny;
    uint32_t before = env.writes + env.metas, op = z_choice(6, "write");
    int i = (int) z_choice(MN, "slot");
    ment_t *e = &M[i];
    if(op == 0) {
        if(m_seq && z_choice(2, "new")) {
            if(!deny) { m_new(&v, vn); z_cover("inserted"); return; }
            z_assert(CMD(m_c, S("SET"), S(""), B(&v, vn)) && zr_error(), "write-refused");
        } else if(!deny && !(worm && e->have)) { m_set(i, &v, vn); z_cover("inserted"); return; }
        else {
            z_assert(CMD(m_c, S("SET"), B(e->k, e->kn), B(&v, vn)), "daemon-alive");
            z_assert(zr_error() || (worm && zr_nil() && e->ver[e->nv - 1].n == vn && memcmp(e->ver[e->nv - 1].v, &v, vn) == 0), "write-refused");
        }
    } else if(op == 1) {
        if(!deny && !(worm && e->have)) { m_del(i); return; }
        z_assert(CMD(m_c, S("DEL"), B(e->k, e->kn)) && zr_error(), "delete-refused");
    } else if(op == 2) {
        if(!deny && !(worm && e->have)) z_assume(0);
        z_assert(CMD(m_c, S("SETX"), B(e->k, e->kn), B(&v, 1)), "daemon-alive");
        z_assert(zr_error() || (worm && zr_nil()), "write-refused");
    } else if(op == 3) {
        if(!deny && !(worm && e->have)) z_assume(0);
        z_assert(CMD(m_c, S("SET"), B(e->k, e->kn), B(&v, 1), S("1234567890")), "daemon-alive");
        z_assert(zr_error() || (worm && zr_nil()), "write-refused");
    } else if(op == 4) {
        if(!deny && !(worm && e->have)) z_assume(0);
        z_assert(CMD(m_c, S("DEL"), B(e->k, e->kn), S("1234567890")) && zr_error(), "delete-refused");
    } else {
        if(!deny && !HAS(WORM)) z_assume(0);
        z_assert(CMD(m_c, S("FLUSH")) && zr_error(), "flush-refused");
        z_cover("flush-refused");
    }
    z_assert(env.writes + env.metas == before, "refused-operation-writes-nothing");
    z_cover("refused");
}
static void read_op(int st) {
    int i = (int) z_choice(z_param("both", 0) ? 1 : MN, "slot");
    zarg_t k = B(M[i].k, M[i].kn);
    if(!HAS(FREEZE)) { m_verify(); m_scan(0, 0); m_scan(1, 0); m_history(i); return; }
    int r = 0;
    switch(z_choice(14, "read")) {
    case 0: r = CMD(m_c, S("GET"), k); break;
    case 1: r = CMD(m_c, S("MGET"), k, k); break;
    case 2: r = CMD(m_c, S("EXISTS"), k); break;
    case 3: r = CMD(m_c, S("CHECK"), k); break;
    case 4: r = CMD(m_c, S("LENGTH"), k); break;
    case 5: r = CMD(m_c, S("KEYTIME"), k); break;
    case 6: r = CMD(m_c, S("SCAN")); break;
    case 7: r = CMD(m_c, S("RSCAN")); break;
    case 8: r = CMD(m_c, S("KSCAN"), k); break;
    case 9: r = CMD(m_c, S("HISTORY"), k); break;
    case 10: r = CMD(m_c, S("KEYCUR"), k); break;
    case 11: z_assume(have_cur); r = CMD(m_c, S("SCAN"), B(cur, 17)); break;
    case 12: z_assume(have_cur); r = CMD(m_c, S("RSCAN"), B(cur, 17)); break;
    default: z_assume(have_hcur); k = B(M[0].k, M[0].kn); r = CMD(m_c, S("HISTORY"), k, B(hcur, 8)); z_cover("frozen-cursor"); break;
    }
    z_assert(r && zr_error(), "read-of-frozen-refused");
    z_cover("frozen-read");
}
void zmain(void) {
    int seq = z_param("seq", 0), ops = z_param("ops", 2);
    env_reset();
    zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0); zh_connect(3);
    int st = LOCK + (int) z_choice(4, "state"), second = 0;
    if(z_param("both", 0)) { second = LOCK + (int) z_choice(4, "second-state"); z_assume(second != st && !(st + second == LOCK + FREEZE)); } // lock and freeze are one setting: the last one counts
    int priv = st != READONLY && second != READONLY;
    z_assert(CMD(3, S("NSNEW"), S("n")) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(3, S("NSSET"), S("n"), S("password"), S("pw")) && zr_is("+OK\r\n"), "nsset-ok");
    if(priv) z_assert(prop_set("public", "0"), "nsset-ok");
    m_init(seq); m_c = 0; m_ns = "n";
    z_assert(CMD(0, S("SELECT"), S("n"), S("pw")) && zr_is("+OK\r\n"), "select-ok");
    if(!seq) m_keys(2, 0);
    uint8_t v = z_u8("v");
    if(seq) { m_new(&v, 1); m_new("Z", 1); if(z_choice(2, "hole")) m_del(1); } else m_set(0, &v, st == WORM ? z_choice(2, "vlen") : 1);
    if(st == FREEZE || st == LOCK) {
        const unsigned char *p; uint32_t n; int64_t a;
        env.now_sec++; m_set(0, "zz", 2);
        z_assert(CMD(0, S("KEYCUR"), B(M[0].k, M[0].kn)) && zr_bulk(&p, &n) && n == 17, "keycur-reply"); memcpy(cur, p, 17); have_cur = 1;
        z_assert(CMD(0, S("HISTORY"), B(M[0].k, M[0].kn)) && zr_array(&a) && a == 3 && zr_bulk(&p, &n) && n == 8, "history-reply"); memcpy(hcur, p, 8); have_hcur = 1;
    }
    set_state(st, 1);
    if(z_param("reload", 0) && st != READONLY) { z_assert(CMD(3, S("RELOAD"), S("n")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); }
    if(st == READONLY && z_choice(2, "becomes-private")) { z_assert(prop_set("public", "0"), "nsset-ok"); z_cover("made-private"); }
    if(second) { // both apply, then only the second one
        set_state(second, 1); int mask = 1 << st | 1 << second;
        if(z_param("reload", 0)) { z_assert(CMD(3, S("RELOAD"), S("n")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); }
        if(z_choice(2, "kind")) { if(mask & 1 << FREEZE) read_op(mask); } else write_op(mask);
        set_state(st, 0); st = second; mask = 1 << st;
        if(z_choice(2, "kind")) { if(mask & 1 << FREEZE) read_op(mask); } else write_op(mask);
        set_state(st, 0); m_verify(); z_cover("both"); z_cover("end"); return;
    }
    for(int s = 0; s < ops; s++) if(s && z_choice(2, "kind")) read_op(1 << st); else write_op(1 << st);
    if(st == READONLY || st == LOCK || st == FREEZE) {
        // only this namespace and, when read-only, only this client
        if(st == READONLY) { zh_connect(1); z_assert(CMD(1, S("SELECT"), S("n"), S("pw")) && zr_is("+OK\r\n"), "select-ok"); m_c = 1; m_set(0, "q", 1); m_c = 0; z_cover("other-client-writes"); }
        else { zh_connect(1); z_assert(CMD(1, S("SET"), B(seq ? "" : "q", seq ? 0 : 1), S("q")) && !zr_error(), "other-namespace-writable"); }
    }
    set_state(st, 0);
    m_verify(); m_scan(0, 0);
    if(seq) m_new("y", 1); else { m_set(0, "y", 1); m_del(0); }
    m_verify();
    z_cover("end");
}
