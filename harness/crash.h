// One operation that may be interrupted: what the client asked, and how the model settles afterwards.
#ifndef CRASH_H
#define CRASH_H
#include "model.h"
typedef struct { int kind; int slot; unsigned char v[MVAL]; uint32_t n; int64_t before; } xop_t;   // kind 0 SET/update, 1 DEL, 2 insert, 3 NSJUMP
static int xop_issue(xop_t *o, int keys, int lens, int jump) {
    memset(o, 0, sizeof *o);
    o->before = m_entries();
    env.now_sec++;
    uint32_t k = z_choice(jump ? 3 : 2, "xkind");
    if(k == 2) { o->kind = 3; z_note("xJUMP "); return CMD(m_c, S("NSJUMP")); }
    if(m_seq && k == 0 && (MN == 0 || z_choice(2, "insert"))) {
        o->kind = 2; o->n = z_choice(lens, "xlen") + 1; m_value(o->v, o->n); z_note("xNEW ");
        return CMD(m_c, S("SET"), B("", 0), B(o->v, o->n));
    }
    if(MN == 0) { z_assume(0); }
    o->slot = MN > 1 ? z_choice(MN, "xslot") : 0;
    (void) keys;
    ment_t *e = &M[o->slot];
    if(k == 1) { o->kind = 1; z_note("xDEL "); return CMD(m_c, S("DEL"), B(e->k, e->kn)); }
    o->kind = 0; o->n = z_choice(lens, "xlen") + 1; m_value(o->v, o->n); z_note("xSET ");
    if(m_seq) z_assume(e->have);
    return CMD(m_c, S("SET"), B(e->k, e->kn), B(o->v, o->n));
}
// the reply says the operation took effect (1), was refused or ignored (0)
static int xop_done(xop_t *o) {
    ment_t *e = &M[o->slot];
    if(o->kind == 3) return 0;
    if(o->kind == 1) return zr_is("+OK\r\n");
    if(o->kind == 2) return !zr_error();
    if(zr_error()) return 0;
    mver_t *l = e->have ? &e->ver[e->nv - 1] : NULL;
    if(l && l->n == o->n && memcmp(l->v, o->v, o->n) == 0) return 0;
    return 1;
}
static void xop_apply(xop_t *o) {
    ment_t *e = &M[o->slot];
    if(o->kind == 0) m_push(e, o->v, o->n, (uint32_t) env.now_sec);
    if(o->kind == 1) { e->have = 0; e->dead = 1; }
}
// look at the store: the interrupted operation took place completely or not at all; update the model accordingly
static void xop_settle(xop_t *o) {
    ment_t *e = &M[o->slot]; int64_t n;
    if(o->kind == 0) {
        z_assert(CMD(m_c, S("GET"), B(e->k, e->kn)), "daemon-alive");
        mver_t *l = e->have ? &e->ver[e->nv - 1] : NULL;
        int same = l && l->n == o->n && memcmp(l->v, o->v, o->n) == 0;
        if(same) { z_assert(zr_bulk_is(l->v, l->n) && zr_end(), "interrupted-set-old-or-new"); return; }
        zreply_t keep = zr;
        if(zr_bulk_is(o->v, o->n)) { z_assert(zr_end(), "interrupted-set-old-or-new"); xop_apply(o); z_cover("settled-new"); return; }
        zr = keep;
        if(l) z_assert(zr_bulk_is(l->v, l->n) && zr_end(), "interrupted-set-old-or-new");
        else z_assert(zr_nil() && zr_end(), "interrupted-set-old-or-new");
        z_cover("settled-old");
    }
    if(o->kind == 1 && e->have) {
        z_assert(CMD(m_c, S("EXISTS"), B(e->k, e->kn)), "daemon-alive");
        z_assert(zr_int(&n) && zr_end() && (n == 0 || n == 1), "interrupted-del-old-or-new");
        if(n == 0) xop_apply(o);
    }
    if(o->kind == 2) {
        z_assert(CMD(m_c, S("DBSIZE")), "daemon-alive");
        z_assert(zr_int(&n) && zr_end() && (n == o->before || n == o->before + 1), "interrupted-insert-all-or-nothing");
        if(n > o->before) {
            const unsigned char *p; uint32_t l; int64_t a;
            z_assert(CMD(m_c, S("RSCAN")), "daemon-alive");
            z_assert(zr_array(&a) && a == 2 && zr_bulk(&p, &l) && zr_array(&a) && a > 0 && zr_array(&a) && a == 3 && zr_bulk(&p, &l) && l == 8, "interrupted-insert-visible");
            ment_t *f = &M[MN++];
            memset(f, 0, sizeof *f); memcpy(f->k, p, 8); f->kn = 8;
            m_push(f, o->v, o->n, (uint32_t) env.now_sec);
            z_cover("settled-new");
        }
    }
}
#endif
