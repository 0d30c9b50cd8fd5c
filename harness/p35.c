#include "model.h"
#include "files.h"
// Raw records: each one is served exactly as it was written, wherever it is; replayed in order into another
// namespace from its own position on, they build the same namespace.
static int field(int c, const char *ns, const char *name) {
    uint32_t l = strlen(name);
    z_assert(CMD(c, S("NSINFO"), B(ns, 1)), "daemon-alive");
    for(uint32_t i = 0; i + l + 2 < zr.n; i++) if((i == 0 || zr.p[i - 1] == '\n') && memcmp(zr.p + i, name, l) == 0 && zr.p[i + l] == ':') { int v = 0; for(i += l + 2; zr.p[i] >= '0' && zr.p[i] <= '9'; i++) v = v * 10 + zr.p[i] - '0'; return v; }
    z_fail("position-reported"); return 0;
}
static uint32_t num(char *t, uint32_t v) { return (uint32_t) sprintf(t, "%u", v); }
typedef struct { const unsigned char *id, *data; uint32_t idn, dn; int64_t prev, flags, ts; int nil; } raw_t;
static int raw(int c, uint32_t file, uint32_t off, raw_t *r) {
    char a[16], b[16]; uint32_t an = num(a, file), bn = num(b, off); int64_t n; const unsigned char *p; uint32_t m;
    z_assert(CMD(c, S("DATA"), S("RAW"), B(a, an), B(b, bn)), "daemon-alive");
    if(zr.n && zr.p[0] == '-') { z_assert(zr_error(), "error-well-formed"); return zr_is("-EOF\r\n") ? 0 : -1; }
    z_assert(zr_array(&n) && n == 6 && zr_bulk(&r->id, &r->idn) && zr_int(&r->prev) && zr_bulk(&p, &m) && m == 10 && p[0] == '0' && p[1] == 'x' && zr_int(&r->flags) && zr_int(&r->ts), "record-well-formed");
    r->nil = zr_nil();
    if(!r->nil) z_assert(zr_bulk(&r->data, &r->dn), "record-well-formed");
    z_assert(zr_end(), "record-well-formed");
    return 1;
}
static int files = 1;
static uint8_t byte(void) { return z_param("what", 0) == 2 ? (z_choice(2, "v") ? 0xff : 1) : z_u8("v"); }
static void op(void) {
    uint32_t k = z_choice(6, "op");
    env.now_sec++;
    if(k == 0) { z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); files++; z_cover("jumped"); return; }
    if(k == 1 && !m_seq && z_param("stamp", 1)) { uint8_t v = byte(); m_set_ts((int) z_choice((uint32_t) MN, "slot"), &v, 1, 12, 1); return; }
    if(k == 1) { uint8_t v[20]; for(int i = 0; i < 20; i++) v[i] = (uint8_t) i; v[3] = byte(); if(m_seq) { m_new(v, 20); return; } m_set(0, v, 20); return; }
    if(k == 2) { z_assume(MN > 0); m_del((int) z_choice((uint32_t) MN, "slot")); return; }
    if(k == 5) { z_assume(z_param("reload", 1)); z_assert(CMD(3, S("RELOAD"), S("m")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); return; }
    uint8_t v = byte();
    if(m_seq && (k == 3 || !MN)) { m_new(&v, k == 3); return; }
    m_set((int) z_choice((uint32_t) MN, "slot"), &v, k == 3);
}
// every record of the files, served as it is
static void each(void) {
    raw_t r; drec_t d;
    for(int f = 0; f < files; f++) {
        vnode_t *v = f_data("m", f); z_assert(v != NULL, "data-file-there");
        for(uint32_t at = DHEAD; f_next(v, &at, &d); ) {
            z_assert(raw(0, (uint32_t) f, d.at, &r) == 1, "record-served");
            z_assert(r.idn == d.idlen && memcmp(r.id, d.id, d.idlen) == 0 && r.prev == d.previous && r.flags == d.flags && r.ts == d.ts, "record-exact");
            if(d.flags & 1) { z_assert(r.nil, "deletion-without-payload"); z_cover("deletion"); }
            else z_assert(!r.nil && r.dn == d.datalen && memcmp(r.data, d.data, d.datalen) == 0, "record-exact");
        }
        z_assert(raw(0, (uint32_t) f, v->size, &r) == 0, "end-of-file-told");
    }
    z_assert(raw(0, (uint32_t) files, DHEAD, &r) == -1, "absent-file-refused");
    z_assert(field(3, "m", "data_current_id") == files - 1 && field(3, "m", "data_current_offset") == (int) f_data("m", files - 1)->size, "position-exact");
}
static void follow(void) {
    raw_t r; char t[16];
    for(int k = 0; ; k++) {
        int mi = field(3, "m", "data_current_id"), mo = field(3, "m", "data_current_offset"), si = field(3, "s", "data_current_id"), so = field(3, "s", "data_current_offset");
        if(mi == si && mo == so) return;
        z_assert(k < 16 && si <= mi, "copy-progresses");
        int st = raw(0, (uint32_t) si, (uint32_t) so, &r);
        z_assert(st >= 0, "record-served");
        if(st == 0) { z_assert(CMD(1, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); continue; }
        uint32_t tn = num(t, (uint32_t) r.ts);
        if(r.flags == 0) { z_assert(CMD(1, S("SET"), B(r.id, r.idn), B(r.data, r.dn), B(t, tn)), "daemon-alive"); z_assert(!zr_error() && !zr_nil(), "record-replayed"); }
        else { z_assert(CMD(1, S("DEL"), B(r.id, r.idn), B(t, tn)) && zr_is("+OK\r\n"), "record-replayed"); z_cover("deletion"); }
    }
}
void zmain(void) {
    int ops = z_param("ops", 3), what = z_param("what", 0);
    env_reset(); zh_bits = 0; zh_opts[0] = "--mode"; zh_opts[1] = z_param("seq", 0) ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0); zh_connect(1); zh_connect(3);
    z_assert(CMD(3, S("NSNEW"), S("m")) && zr_is("+OK\r\n") && CMD(3, S("NSNEW"), S("s")) && zr_is("+OK\r\n"), "nsnew-ok");
    z_assert(CMD(0, S("SELECT"), S("m")) && zr_is("+OK\r\n") && CMD(1, S("SELECT"), S("s")) && zr_is("+OK\r\n"), "select-ok");
    m_init(z_param("seq", 0)); m_ns = "m";
    if(!m_seq) { MN = 2; M[0].kn = 1; M[0].k[0] = what == 2 ? 'k' : z_u8("key"); M[1].kn = 2; M[1].k[0] = what == 2 ? 'l' : z_u8("key"); M[1].k[1] = 0; }
    for(int i = 0; i < ops; i++) { op(); if(what == 1 && i + 1 < ops && z_choice(2, "follow")) { follow(); z_cover("caught-up"); } }
    if(what == 0) { each(); m_verify(); z_cover("end"); return; }
    if(what == 2) { // any place: an answer or a refusal, nothing else
        raw_t r; uint32_t before = env.writes + env.metas, off = z_concretize(z_range(0, f_data("m", 0)->size + 2, "offset"));
        int st = raw(0, 0, off, &r); z_assert(st == 0 ? off >= f_data("m", 0)->size : 1, "end-of-file-told");
        if(off >= f_data("m", 0)->size) z_assert(st == 0, "end-of-file-told");
        const char *odd[] = { "-1", "4294967296", "99999999999999999999", "", "x", "-4294967296" };
        for(int i = 0; i < 6; i++) { z_assert(CMD(0, S("DATA"), S("RAW"), S("0"), B(odd[i], strlen(odd[i]))) && zr.n > 2, "answered"); z_assert(CMD(0, S("DATA"), S("RAW"), B(odd[i], strlen(odd[i])), S("28")) && zr.n > 2, "answered"); }
        z_assert(env.writes + env.metas == before, "reading-changes-nothing"); m_verify(); z_cover("end"); return;
    }
    follow();
    // the copy is the same, on disk and to its readers
    for(int f = 0; f < files; f++) {
        vnode_t *a = f_data("m", f), *b = f_data("s", f); drec_t x, y;
        z_assert(a && b && a->size == b->size, "copy-identical");
        for(uint32_t i = DHEAD, j = DHEAD; f_next(a, &i, &x); ) {
            z_assert(f_next(b, &j, &y) && x.idlen == y.idlen && memcmp(x.id, y.id, x.idlen) == 0 && x.datalen == y.datalen && memcmp(x.data, y.data, x.datalen) == 0 && x.flags == y.flags && x.ts == y.ts && x.crc == y.crc, "copy-identical");
            if(x.at != DHEAD) z_assert(x.previous == y.previous, "copy-identical");
        }
    }
    m_c = 1; m_ns = "s"; m_verify(); for(int i = 0; i < MN; i++) m_history(i);
    m_c = 0; m_ns = "m"; m_verify();
    z_cover("end");
}
