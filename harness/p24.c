#include "files.h"
// INDEX DIRTY names the index files whose existing entries were rewritten since the last reset.
#ifndef MAXF
#define MAXF 20
#endif
#define SNAP 400
static struct { uint32_t size; unsigned char data[SNAP]; } snap[MAXF];
static int nf, seq, late;
static void snapshot(void) {
    for(nf = 0; f_index("default", nf); nf++) { vnode_t *f = f_index("default", nf); if(nf >= MAXF || f->size > SNAP) z_fail("harness-snapshot"); snap[nf].size = f->size; memcpy(snap[nf].data, f->data, f->size); }
}
static void dirty(void) {
    int64_t n, v, last = -1; int listed[MAXF]; memset(listed, 0, sizeof listed);
    z_assert(CMD(0, S("INDEX"), S("DIRTY")) && zr_array(&n), "list");
    for(int i = 0; i < n; i++) {
        z_assert(zr_int(&v), "list-of-numbers"); z_assert(v > last && v < MAXF && f_index("default", (int) v) != NULL, "existing-files-in-order"); last = v; listed[v] = 1;
    }
    z_assert(zr_end(), "list-complete");
    for(int i = 0; i < MAXF; i++) {
        vnode_t *f = f_index("default", i); if(!f) { z_assert(!listed[i], "existing-files-in-order"); continue; }
        uint32_t known = i < nf ? snap[i].size : 0;
        int rewritten = known && memcmp(f->data, snap[i].data, known) != 0, same = i < nf && f->size == known && !rewritten;
        if(rewritten) { z_assert(listed[i], "rewritten-file-is-listed"); z_cover(i > 7 ? "high-listed" : "listed"); }
        if(same) z_assert(!listed[i], "untouched-file-is-not-listed");
    }
}
static void jump(void) { z_assert(CMD(0, S("NSJUMP")), "nsjump"); }
void zmain(void) {
    seq = z_param("seq", 0); int ops = z_param("ops", 3);
    env_reset(); zh_bits = 0; zh_opts[0] = "--mode"; zh_opts[1] = seq ? "seq" : "user"; zh_opts[2] = NULL;
    z_assert(zh_boot(), "daemon-starts"); zh_connect(0);
    uint8_t k0 = z_u8("key"), k[MAXF][8]; uint32_t kn = seq ? 8 : 2;
    static const int files[] = { 2, 9, 17, 8, 16 };
    int far = z_param("far", 0), N = far ? far : files[z_choice((uint32_t) z_param("layouts", 3), "files")];
    // one entry per index file
    for(int i = 0; i < N; i++) {
        if(i) jump();
        if(seq) { z_assert(CMD(0, S("SET"), S(""), S("v")), "set"); const unsigned char *p; uint32_t n; z_assert(zr_bulk(&p, &n) && n == 8, "set"); memcpy(k[i], p, 8); }
        else { k[i][0] = k0; k[i][1] = (uint8_t) i; z_assert(CMD(0, S("SET"), B(k[i], 2), S("v")) && zr_bulk_is(k[i], 2), "set"); }
    }
    int64_t none; z_assert(CMD(0, S("INDEX"), S("DIRTY")) && zr_array(&none) && none == 0 && zr_end(), "clean-at-first");
    uint32_t how = z_choice(3, "how");
    if(how == 1) { z_assert(zh_boot(), "daemon-restarts"); zh_connect(0); z_cover("restarted"); }
    if(how == 2) { z_assert(CMD(0, S("RELOAD"), S("default")) && zr_is("+OK\r\n"), "reload-ok"); z_cover("reloaded"); }
    snapshot(); dirty();
    int gone[MAXF]; memset(gone, 0, sizeof gone);
    for(int s = 0; s < ops; s++) {
        static const int which[] = { 0, 7, 8, -1 };
        static const int farther[] = { 0, 31, 32, 63, 64, -1 };
        int w = far ? farther[z_choice(6, "which")] : which[z_choice(4, "which")]; if(w < 0) w = N - 1; else z_assume(w < N - 1);
        z_assume(!gone[w]);
        uint8_t v = (uint8_t) ('a' + s);
        switch(z_choice(4, "op")) {
        case 0: z_assert(CMD(0, S("SET"), B(k[w], kn), B(&v, 1)) && zr_bulk_is(k[w], kn), "update"); break;
        case 1: z_assert(CMD(0, S("DEL"), B(k[w], kn)) && zr_is("+OK\r\n"), "del"); gone[w] = 1; break;
        case 2: jump(); break;
        default: z_assert(CMD(0, S("INDEX"), S("DIRTY"), S("RESET")) && zr_is("+OK\r\n"), "reset"); snapshot();
                 z_assert(CMD(0, S("INDEX"), S("DIRTY")) && zr_array(&none) && none == 0 && zr_end(), "clean-after-reset"); z_cover("reset"); break;
        }
        dirty();
    }
    z_cover("end");
}
