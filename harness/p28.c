#include "model.h"
#include "files.h"
// Data files other than the current one may be taken away: everything which needs no payload works as before,
// payloads which are away are refused, and are back when the files are.
static int wh[MKEYS][MVERS], file, away[8], rev;
static void put(int i, int n, int same) {
    unsigned char v[8]; z_bytes(v, (uint32_t) n, "v");
    ment_t *e = i < 0 ? NULL : &M[i];
    if(same && e && e->have) { n = (int) e->ver[e->nv - 1].n; memcpy(v, e->ver[e->nv - 1].v, (size_t) n); }
    if(i < 0) { i = m_new(v, (uint32_t) n); wh[i][0] = file; return; }
    // a value which cannot be compared with the present one may be written again
    if(e->have && away[wh[i][e->nv - 1]] && e->ver[e->nv - 1].n == (uint32_t) n && memcmp(e->ver[e->nv - 1].v, v, (size_t) n) == 0) {
        z_assert(CMD(0, S("SET"), B(e->k, e->kn), B(v, n)), "daemon-alive");
        if(zr_nil()) return;
        z_assert(zr_bulk_is(e->k, e->kn) && zr_end(), "set-returns-key"); m_push(e, v, (uint32_t) n, (uint32_t) env.now_sec); wh[i][e->nv - 1] = file; z_cover("written-again");
        return;
    }
    if(m_set(i, v, (uint32_t) n)) wh[i][e->nv - 1] = file;
}
static void jump(void) { z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); file++; }
static int gone(int i) { return M[i].have && away[wh[i][M[i].nv - 1]]; }
// everything about key i, its payload being away or not
static void look(int i) {
    ment_t *e = &M[i]; int64_t n; 
    if(!gone(i)) { m_read(i); return; }
    mver_t *l = &e->ver[e->nv - 1]; z_cover("away");
    z_assert(CMD(0, S("GET"), B(e->k, e->kn)) && zr_error(), "absent-payload-refused");
    z_assert(CMD(0, S("EXISTS"), B(e->k, e->kn)) && zr_int(&n) && n == 1 && zr_end(), "exists-exact");
    z_assert(CMD(0, S("LENGTH"), B(e->k, e->kn)) && zr_int(&n) && n == l->n && zr_end(), "length-exact");
    z_assert(CMD(0, S("KEYTIME"), B(e->k, e->kn)) && zr_int(&n) && n == l->ts && zr_end(), "keytime-exact");
    z_assert(CMD(0, S("CHECK"), B(e->k, e->kn)), "daemon-alive"); z_assert(zr_error() || zr_nil() || (zr_int(&n) && n != 1), "absent-payload-not-intact");
    z_assert(CMD(0, S("HISTORY"), B(e->k, e->kn)) && (zr_error() || zr_nil()), "absent-payload-refused");
}
static void look_all(void) {
    int64_t n;
    // raw records of files which are not there, or do not exist yet
    for(int f = 0; f <= file + 1; f++) {
        if(f <= file && !away[f]) continue;
        char t[8]; sprintf(t, "%d", f);
        z_assert(CMD(0, S("DATA"), S("RAW"), B(t, strlen(t)), S("28")) && zr_error() && !zr_is("-EOF\r\n"), "absent-payload-refused");
    }
    for(int i = 0; i < MN; i++) look(i);
    z_assert(CMD(0, S("DBSIZE")) && zr_int(&n) && n == m_entries() && zr_end(), "dbsize-exact");
    z_assert(m_info("entries", &n) && n == m_entries(), "nsinfo-entries-exact");
    z_assert(m_info("data_size_bytes", &n) && n == m_datasize(), "nsinfo-datasize-exact");
    m_scan(rev, 0);
    if(MN >= 2) { // each payload on its own
        z_assert(CMD(0, S("MGET"), B(M[1].k, M[1].kn), B(M[0].k, M[0].kn)) && zr_array(&n) && n == 2, "mget-array");
        for(int i = 1; i >= 0; i--) if(gone(i)) { const char *t = "-Internal Error\r\n"; z_assert(zr.at + 17 <= zr.n && memcmp(zr.p + zr.at, t, 1) == 0, "absent-payload-refused"); while(zr.at < zr.n && zr.p[zr.at] != '\n') zr.at++; zr.at++; } else z_assert(M[i].have ? zr_bulk_is(M[i].ver[M[i].nv - 1].v, M[i].ver[M[i].nv - 1].n) : zr_nil(), "mget-value");
        z_assert(zr_end(), "mget-exact");
    }
}
static void move(int f, int out) {
    char a[32], b[32]; sprintf(a, "/db/d/default/d%d", f); sprintf(b, "/elsewhere%d", f);
    vnode_t *v = vfs_find(out ? a : b); z_assert(v != NULL, "file-there"); strcpy(v->path, out ? b : a); away[f] = out;
}
void zmain(void) {
    int ops = z_param("ops", 2), then = z_param("then", 1);
    env_reset(); zh_bits = 0; zh_opts[0] = "--mode"; zh_opts[1] = z_param("seq", 0) ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    m_init(z_param("seq", 0));
    if(!m_seq) { MN = 2; M[0].kn = 1; M[1].kn = 2; memcpy(M[0].k, "a", 1); memcpy(M[1].k, "bc", 2); }
    put(m_seq ? -1 : 0, 2, 0);
    for(int s = 0; s < ops; s++) {
        env.now_sec++; jump();
        switch(z_choice(4, "op")) {
        case 0: put(0, 3, 0); break;
        case 1: put(m_seq && MN < 2 ? -1 : 1, 1, 0); break;
        case 2: m_del(0); break;
        case 3: break;
        }
    }
    if(z_choice(2, "rotate")) jump();
    for(int f = 0; f < file; f++) if(z_choice(2, "away")) move(f, 1);
    uint32_t how = z_choice(3, "how");
    rev = how == 1;
    if(how == 1) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); z_cover("restarted"); }
    if(how == 2) z_assert(CMD(0, S("RELOAD"), S("default")) && zr_is("+OK\r\n"), "reload-ok");
    if(z_param("early", 1)) look_all();
    for(int s = 0; s < then; s++) {
        env.now_sec++;
        int i = (int) z_choice((uint32_t) MN, "slot"); 
        switch(z_choice(4, "then")) {
        case 0: put(i, 2, 0); break;
        case 1: put(i, 2, 1); break;
        case 2: if(gone(i)) z_cover("deleted-away"); m_del(i); break;
        case 3: if(m_seq && MN < MKEYS) put(-1, 1, 0); jump(); break;
        }
    }
    rev ^= 1; look_all();
    // the files come back
    for(int f = 0; f < file; f++) if(away[f]) { z_assert(f_data("default", f) == NULL, "absent-file-not-made-up"); move(f, 0); }
    if(how == 2) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); }
    m_verify();
    for(int i = 0; i < MN; i++) m_history(i);
    z_cover("end");
}
