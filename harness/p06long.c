#include "zharn.h"
#include "files.h"
// Data files with long keys and long values: whole records, appended in order, each linked to the one before, also
// after restarts and reloads, which have to find the last record by walking over the others.
#define MAXR 8
static unsigned char val[VALMAX], snap[VFS_FILESIZE], sym[3];
typedef struct { uint32_t kn, n; int del, file; } log_t;
static log_t L[MAXR]; static int LN, curfile; static uint32_t snapn;
static const uint32_t kls[] = { 1, 127, 128, 200, 255 }, vls[] = { 1, 128, 300, 32768, 65535, 65536, 70000 };
static unsigned char key[255];
static void mkkey(uint32_t n) { memset(key, 'k', n); key[0] = (uint8_t) n; key[n - 1] = (uint8_t) n; }
static void mkval(uint32_t n) { for(uint32_t i = 0; i < n; i++) val[i] = (uint8_t) (n + i * 5 + (i >> 8)); val[0] = sym[0]; val[n - 1] = sym[1]; }
static void same(void) {
    vnode_t *d = f_data("default", 0);
    z_assert(d && d->size >= snapn && memcmp(d->data, snap, snapn) == 0, "data-file-content-never-modified");
    snapn = d->size; memcpy(snap, d->data, snapn);
}
static void put(uint32_t kn, uint32_t n) {
    env.now_sec++; mkkey(kn); mkval(n);
    z_assert(CMD(0, S("SET"), B(key, kn), B(val, n)) && zr_bulk_is(key, kn), "set-ok");
    L[LN++] = (log_t) { kn, n, 0, curfile }; same();
}
void zmain(void) {
    env_reset();
    zh_bits = 0;
    zh_opts[0] = "--mode"; zh_opts[1] = "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts");
    zh_connect(0);
    z_bytes(sym, 3, "v");
    uint32_t k1 = kls[z_choice(5, "klen")], n1 = vls[z_choice(7, "vlen")];
    put(k1, n1);
    uint32_t last = k1;
    if(z_choice(2, "second")) { last = kls[z_choice(5, "klen2")]; uint32_t n2 = last == k1 ? 2 : 300; put(last, n2); z_cover("two"); }
    if(z_choice(2, "deleted")) { env.now_sec++; mkkey(last); z_assert(CMD(0, S("DEL"), B(key, last)) && zr_is("+OK\r\n"), "del-ok"); L[LN++] = (log_t) { last, 0, 1, curfile }; same(); z_cover("deleted"); }
    switch(z_choice(4, "between")) {
        case 1: z_assert(CMD(0, S("NSJUMP")) && zr_is("+OK\r\n"), "jump-ok"); curfile = 1; z_cover("jumped"); break;
        case 2: z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); z_cover("restarted"); break;
        case 3: z_assert(CMD(0, S("RELOAD"), S("default")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); break;
    }
    same();
    put(3, 3);
    if(z_choice(2, "again")) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); same(); put(5, 4); }
    int at = 0;
    for(int f = 0; f < 2; f++) {
        vnode_t *d = f_data("default", f); uint32_t o = DHEAD, prev = 0; drec_t r; int n = 0;
        if(!d) continue;
        z_assert(d->size >= DHEAD && memcmp(d->data, "DAT0", 4) == 0 && zh_u32(d->data + 24) == (uint32_t) f, "data-file-header");
        while(f_next(d, &o, &r)) {
            z_assert(at < LN && L[at].file == f, "no-record-without-operation");
            log_t *l = &L[at++]; mkkey(l->kn); if(!l->del) mkval(l->n);
            z_assert(r.idlen == l->kn && memcmp(r.id, key, l->kn) == 0, "record-key");
            z_assert((r.flags & 1) == (uint32_t) l->del, "record-deletion-flag");
            z_assert(r.datalen == l->n && memcmp(r.data, val, l->n) == 0, "record-value");
            if(n) z_assert(r.previous == prev, "record-links-to-the-one-before");
            prev = r.at; n++;
        }
    }
    z_assert(at == LN, "every-operation-recorded");
    z_cover("end");
}
